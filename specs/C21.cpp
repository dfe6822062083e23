#include <vf.hpp>
#include <cstdlib>
#include <cerrno>
#include <stdexcept>
#include <string>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/utility.hpp>
// ---------------------------------------------------------------- contract of the system calls
// An arbitrary descriptor q and an arbitrary process p are followed; everything is said about them.
static int g_q; static bool g_open; static u64 g_opened;      // is q open, how often was it opened
static int g_p; static bool g_child; static u64 g_forks;      // is p running and not yet waited for
static u64 g_calls; static bool g_over;
static int g_fail;                                            // errno of the call that failed, 0 if none did
static std::string* g_path; static int g_flags, g_mode; static u64 g_files;
// the child: what its standard descriptors are
enum { NOTHING, INHERITED, PIPE, FILE_, DEVNULL };
static bool g_mayfork; static int g_fixed; static std::string* g_cmd; static bool g_inchild, g_execd; static int g_std[3], g_pipe[2], g_end, g_input; static bool g_dup;
static int vf_errno;
#undef errno
#define errno vf_errno
static bool fails(const char* what) { if (!(vf_uf1(what, g_calls) & 1)) return false; g_fail = int(vf_uf1("errno", g_calls) & 63) + 1; errno = g_fail; return true; }
static int fresh_fd(const char* what, int but) {
    if (g_fixed) return g_fixed++;
    int f = int(vf_uf1(what, g_calls++) & (vf_engine() ? 0x3fffffff : 3)) + 3;
    if (vf_engine()) { vf_assume(f != but && !(g_open && f == g_q)); } else while (f == but || (g_open && f == g_q)) ++f;
    if (f == g_q) { g_open = true; ++g_opened; }
    return f;
}
static int child_open(const char* path, int flags) {
    if (fails("open fails")) return -1;
    int s = flags == O_RDONLY || flags == O_WRONLY ? DEVNULL : FILE_;
    vf_ensure("the helper's output file is the file", std::string(path) == (s == FILE_ ? *g_path : std::string("/dev/null")) && (s == DEVNULL || flags == (O_WRONLY | O_TRUNC | O_CREAT)));
    for (int i = 0; i < 3; ++i) if (g_std[i] == NOTHING) { g_std[i] = s; return i; }
    return 7;
}
static int vf_open(const char* path, int flags, int mode = -1) {
    if (g_inchild) return child_open(path, flags);
    vf_ensure("the file opened has the name of the object", std::string(path) == *g_path);
    if (fails("open fails")) return -1;
    g_flags = flags; g_mode = mode; ++g_files;
    return fresh_fd("open gives", -1);
}
static int vf_close(int fd) {
    if (g_over) return 0;
    if (g_inchild) { if (fd >= 0 && fd < 3) g_std[fd] = NOTHING; g_dup |= fd == g_pipe[g_end]; return 0; }
    if (fd == g_q) { vf_ensure("a descriptor is closed only while it is open", g_open); g_open = false; }
    return 0;
}
static int vf_pipe(int* p) {
    if (fails("pipe fails")) return -1;
    p[0] = g_pipe[0] = fresh_fd("pipe reads", -1); p[1] = g_pipe[1] = fresh_fd("pipe writes", p[0]);
    return 0;
}
static pid_t vf_fork() {
    if (fails("fork fails")) return -1;
    if (g_mayfork) { g_inchild = true; g_std[0] = g_std[1] = g_std[2] = INHERITED; return 0; }
    int c = int(vf_uf1("fork gives", g_calls++) & (vf_engine() ? 0x3fffffff : 3)) + 2;
    if (vf_engine()) { vf_assume(!(g_child && c == g_p)); } else if (g_child && c == g_p) ++c;
    if (c == g_p) g_child = true;
    ++g_forks;
    return c;
}
static int vf_dup2(int from, int to) {
    vf_ensure("the helper uses its end of the pipe", g_inchild && from == g_pipe[g_end] && to == 1 - g_input && !g_dup);
    if (fails("dup2 fails")) return -1;
    g_std[to] = PIPE;
    return to;
}
static void gone() { g_over = true; vf_stop(); }
static void exec_checks(const char* cmd, const char* arg0) {
    vf_ensure("the helper is the program for the encoding", g_inchild && std::string(cmd) == *g_cmd && std::string(arg0) == *g_cmd);
    if (g_input == 0) { vf_ensure("the helper writes to the pipe", g_std[1] == PIPE && g_std[0] != INHERITED && g_std[2] != INHERITED); }
    else { vf_ensure("the helper reads from the pipe and writes the file", g_std[0] == PIPE && g_std[1] == FILE_ && g_std[2] != INHERITED); }
}
static int vf_execlp(const char* cmd, const char* arg0, const char* arg1, long end) {
    exec_checks(cmd, arg0);
    if (g_input == 0) { vf_ensure("the helper reads the file", arg1 != 0 && std::string(arg1) == *g_path && end == 0); } else { vf_ensure("the helper gets no arguments", arg1 == 0); }
    if (!(vf_uf1("exec fails", g_calls) & 1)) gone();
    return -1;
}
static int vf_execlp(const char* cmd, const char* arg0, int arg1, long) { return vf_execlp(cmd, arg0, (const char*)(long)arg1, 0); }
static void vf_exit(int) { vf_ensure("only the helper ends", g_inchild); gone(); }
static pid_t vf_waitpid(pid_t c, int* status, int) {
    if (g_over) return c;
    if (c == g_p) { vf_ensure("a helper is waited for only while it is running", g_child); g_child = false; }
    *status = int(vf_uf1("status", g_calls++) & 0xffff);
    return c;
}
#define open vf_open
#define close vf_close
#define pipe vf_pipe
#define fork vf_fork
#define dup2 vf_dup2
#define execlp vf_execlp
#define exit vf_exit
#define waitpid vf_waitpid
#include <osmium/osmfile.hpp>
using namespace Osmium;
typedef OSMFile::FileType T; typedef OSMFile::FileEncoding E;
static E* enc(u64 e) { return e == 0 ? E::PBF() : e == 1 ? E::XML() : e == 2 ? E::XMLgz() : E::XMLbz2(); }
static void start() {
    g_calls = 0; g_fixed = 0; g_over = g_mayfork = g_inchild = g_execd = g_dup = false; g_fail = 0; g_files = g_forks = g_opened = 0; g_flags = g_mode = 0;
    g_q = int(vf_in_u32("q") & (vf_engine() ? 0x3fffffff : 3)) + 3; g_p = int(vf_in_u32("p") & (vf_engine() ? 0x3fffffff : 3)) + 2;
    g_open = g_child = false;
}
// an arbitrary file object: not open, or open with some descriptor (0 and 1 for standard input and output) and perhaps a helper
static void any(OSMFile& f, u64 i, bool isopen) {
    if (isopen) { bool o = vf_uf1("kind", i) & 1; f.m_type = o ? T::OSM() : T::Change(); f.m_encoding = o ? E::XMLgz() : E::XML(); }
    else { f.m_type = T::History(); f.m_encoding = enc(vf_pick("encoding", i, 4)); }
    if (isopen) {
        u64 fd = vf_uf1("fd", i) & (vf_engine() ? 0x7fffffff : 3), pid = vf_uf1("pid", i) & (vf_engine() ? 0x7fffffff : 3);
        if ((vf_uf1("is open", i) & 3) == 0) fd = u64(-1);
        if (fd == u64(-1)) pid = 0;
        vf_assume(!(int(fd) == g_q && g_open) && !(int(pid) == g_p && g_child));
        if (int(fd) == g_q) g_open = true;
        if (int(pid) == g_p) g_child = true;
        f.m_fd = int(fd); f.m_childpid = int(pid);
    }
}
// q is open exactly if one object has it, p is running exactly if one object waits for it
static bool owned(const OSMFile& a, const OSMFile& b) { return ((a.m_fd == g_q) + (b.m_fd == g_q) == (g_open ? 1 : 0)) && ((a.m_childpid == g_p) + (b.m_childpid == g_p) == (g_child ? 1 : 0)); }
static bool same(const OSMFile& a, const OSMFile& b) { return a.type() == b.type() && a.encoding() == b.encoding() && a.filename() == b.filename(); }
static std::string nonempty() { std::string s = vf_str("name"); if (vf_engine()) { vf_assume(s != ""); vf_assume(s != "-"); } else if (s == "" || s == "-") s = "x"; return s; }
HARNESS(close) {
    start(); OSMFile none("b");
    {
        OSMFile a("a"); any(a, 0, true); T* t = a.type(); E* e = a.encoding(); bool had = a.m_childpid != 0;
        vf_ensure("ownership before", owned(a, none));
        bool threw = false;
        try { a.close(); } catch (OSMFile::IOError&) { threw = true; }
        vf_ensure("after closing, the object has no descriptor and no helper", a.fd() == -1 && a.m_childpid == 0 && owned(a, none) && !g_open && !g_child);
        vf_ensure("only a helper that failed is an error", !threw || had);
        vf_ensure("closing keeps name, type and encoding", a.type() == t && a.encoding() == e && a.filename() == "a");
        if (had && !threw) vf_cover("helper ended well"); if (threw) vf_cover("helper failed");
        a.close();
        vf_ensure("closing again does nothing", a.fd() == -1 && a.m_childpid == 0);
    }
    vf_ensure("nothing is left open", !g_open && !g_child);
}
HARNESS(helper_status) {
    start(); OSMFile a("a"); a.m_fd = 5; a.m_childpid = 9; g_p = 9; g_child = true; g_open = g_q == 5; u64 st = vf_uf1("status", 0) & 0xffff; vf_assume((st & 0x7f) != 0 || (st & 0x80) == 0); bool threw = false;
    try { a.close(); } catch (OSMFile::IOError& x) { threw = true; }
    vf_ensure("a helper that did not end well is reported", threw == (st != 0));
}
HARNESS(destroy) {
    start();
    { OSMFile a("a"); any(a, 0, true); }
    vf_ensure("the end of the object closes its descriptor and waits for its helper", !g_open && !g_child);
}
HARNESS(copy) {
    start();
    {
        OSMFile b("b"); any(b, 1, true); int fd = b.m_fd; pid_t pid = b.m_childpid;
        {
            OSMFile a(b);
            vf_ensure("a copy is not open and has no helper", a.fd() == -1 && a.m_childpid == 0);
            vf_ensure("a copy has the name, type and encoding", same(a, b));
            vf_ensure("copying leaves the original open", b.m_fd == fd && b.m_childpid == pid && owned(a, b));
        }
        vf_ensure("the end of the copy leaves the original open", b.m_fd == fd && b.m_childpid == pid && g_open == (fd == g_q) && g_child == (pid == g_p));
    }
    vf_ensure("nothing is left open", !g_open && !g_child);
}
HARNESS(assign) {
    start();
    {
        OSMFile a("a"), b("b"); any(a, 0, true); any(b, 1, true); int fd = b.m_fd; pid_t pid = b.m_childpid; bool threw = false;
        try { a = b; } catch (OSMFile::IOError&) { threw = true; vf_cover("helper of the old file failed"); }
        vf_ensure("an assigned object is not open and has no helper", a.fd() == -1 && a.m_childpid == 0);
        if (!threw) vf_ensure("an assigned object has the name, type and encoding", same(a, b));
        vf_ensure("assigning leaves the original open", b.m_fd == fd && b.m_childpid == pid);
        vf_ensure("what the object had open before is closed", owned(a, b));
        vf_cover("assigned");
    }
    vf_ensure("nothing is left open", !g_open && !g_child);
}
HARNESS(assign_itself) {
    start();
    {
        OSMFile a("a"), b("b"); any(a, 0, true); T* t = a.type(); E* e = a.encoding();
        try { a = *&a; } catch (OSMFile::IOError&) {}
        vf_ensure("assigning an object to itself keeps name, type and encoding", a.type() == t && a.encoding() == e && a.filename() == "a");
        vf_ensure("each descriptor and helper still belongs to one object", owned(a, b));
    }
    vf_ensure("nothing is left open", !g_open && !g_child);
}
static void opening(bool input, bool named) {
    start(); std::string name = named ? nonempty() : std::string(""); g_path = &name; g_input = input ? 0 : 1; g_end = 1 - g_input;
    {
        OSMFile a, none("b"); a.filename(name); any(a, 0, false); E* e = a.encoding(); T* t = a.type(); bool io = false, sys = false; int err = 0; std::string where = "";
        try { if (input) a.open_for_input(); else a.open_for_output(); }
        catch (OSMFile::IOError& x) { io = true; err = x.system_errno(); where = x.filename(); } catch (OSMFile::SystemError& x) { sys = true; err = x.system_errno(); }
        bool packed = e == E::XMLgz() || e == E::XMLbz2(), url = input && !packed && (name.substr(0, name.find_first_of(':') + 1) == "http:" || name.substr(0, name.find_first_of(':') + 1) == "https:");
        vf_ensure("every failure is reported", (io || sys) == (g_fail != 0));
        vf_ensure("opening keeps name, type and encoding", a.filename() == name && a.encoding() == e && a.type() == t);
        if (io || sys) {
            vf_ensure("the exception tells what went wrong", err == g_fail && (!io || where == name));
            vf_ensure("a failure leaves nothing open", a.fd() == -1 && a.m_childpid == 0 && !g_open && !g_child);
            if (io) vf_cover("open fails");
        } else {
            vf_ensure("an open file has a descriptor", a.fd() >= 0);
            vf_ensure("the object owns what was opened", owned(a, none));
            if (packed || url) { vf_ensure("compressed files and URLs need exactly one helper", a.m_childpid != 0 && g_forks == 1 && g_files == 0 && a.fd() == g_pipe[g_input]); vf_cover("helper"); }
            else {
                vf_ensure("other files need no helper", a.m_childpid == 0 && g_forks == 0);
                if (named) { vf_ensure("the file is opened once with the right mode", g_files == 1 && g_flags == (input ? O_RDONLY : O_WRONLY | O_TRUNC | O_CREAT) && (input || g_mode == 0666)); }
                else { vf_ensure("no name means standard input or output", g_files == 0 && a.fd() == g_input); vf_cover("standard"); }
            }
        }
    }
    vf_ensure("nothing is left open in the end", !g_open && !g_child);
}
// the other side of fork(): the helper
static void helper(int input) {
    start(); g_mayfork = true; std::string name = nonempty(), cmd = vf_str("command"); g_path = &name; g_cmd = &cmd; g_input = input; g_end = 1 - input;
    OSMFile a; a.filename(name);
    try { a.execute(cmd, input); } catch (OSMFile::SystemError&) { vf_ensure("no error is reported by the helper", !g_inchild); vf_cover("no helper"); return; }
    if (g_inchild) g_over = true;
    vf_ensure("the helper never returns", !g_inchild);
}
HARNESS(helper_input) { helper(0); }
HARNESS(helper_output) { helper(1); }
static void program(E* e, const std::string& name, bool input, const char* expect) {
    start(); g_q = g_p = -7; g_mayfork = true; g_fixed = 8; std::string n = name, cmd = expect; g_path = &n; g_cmd = &cmd; g_input = input ? 0 : 1; g_end = 1 - g_input;
    OSMFile a; a.filename(name); a.encoding(e);
    try { if (input) a.open_for_input(); else a.open_for_output(); } catch (OSMFile::SystemError&) { return; }
    g_over = true; vf_ensure("the helper never returns", false);
}
HARNESS(program_gz_input) { program(E::XMLgz(), nonempty(), true, "zcat"); }
HARNESS(program_gz_output) { program(E::XMLgz(), nonempty(), false, "gzip"); }
HARNESS(program_bz2_input) { program(E::XMLbz2(), nonempty(), true, "bzcat"); }
HARNESS(program_bz2_output) { program(E::XMLbz2(), nonempty(), false, "bzip2"); }
HARNESS(program_url) { program(vf_in_bool("pbf") ? E::PBF() : E::XML(), "https://x/y.osm", true, "curl"); }
HARNESS(open_input) { opening(true, true); }
HARNESS(open_output) { opening(false, true); }
HARNESS(open_stdin) { opening(true, false); }
HARNESS(open_stdout) { opening(false, false); }
