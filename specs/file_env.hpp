// the system calls behind Osmium::OSMFile and the parsers: files open, closing does nothing
#ifndef FILE_ENV_HPP
#define FILE_ENV_HPP
#include <stdlib.h>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <stdexcept>
#include <string>
#include <cassert>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/utility.hpp>
static ssize_t vf_read(int fd, void* buf, size_t n);
static int vf_open(const char*, int, int = 0) { return 5; }
static int vf_close(int) { return 0; }
#define open vf_open
#define close vf_close
#define read vf_read
#define exit _exit
#include <osmium/osmfile.hpp>
#endif
