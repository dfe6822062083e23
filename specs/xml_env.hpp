// expat as the XML reader sees it: what it parses is the document the specification gives, one element at a time
#ifndef XML_ENV_HPP
#define XML_ENV_HPP
#include "file_env.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <expat.h>
static XML_StartElementHandler g_start; static XML_EndElementHandler g_end; static void* g_user; static int g_parsers; static char g_xmlbuf[16];
// what the specification does with one call of the parser (len bytes of input, last of them if done); false: not well-formed
static bool vf_document(int len, int done);
static XML_Parser vf_ParserCreate(const XML_Char*) { ++g_parsers; return (XML_Parser)g_xmlbuf; }
static void vf_ParserFree(XML_Parser) { --g_parsers; }
static void vf_SetUserData(XML_Parser, void* u) { g_user = u; }
static void vf_SetElementHandler(XML_Parser, XML_StartElementHandler s, XML_EndElementHandler e) { g_start = s; g_end = e; }
static void* vf_GetBuffer(XML_Parser, int) { return g_xmlbuf; }
static enum XML_Status vf_ParseBuffer(XML_Parser, int len, int done) { return vf_document(len, done) ? XML_STATUS_OK : XML_STATUS_ERROR; }
static enum XML_Error vf_GetErrorCode(XML_Parser) { return XML_ERROR_NONE; }
static unsigned long vf_GetLine(XML_Parser) { return 1; }
static const XML_LChar* vf_ErrorString(enum XML_Error) { return "not well-formed"; }
#define XML_ParserCreate vf_ParserCreate
#define XML_ParserFree vf_ParserFree
#define XML_SetUserData vf_SetUserData
#define XML_SetElementHandler vf_SetElementHandler
#define XML_GetBuffer vf_GetBuffer
#define XML_ParseBuffer vf_ParseBuffer
#define XML_GetErrorCode vf_GetErrorCode
#define XML_GetCurrentLineNumber vf_GetLine
#define XML_GetCurrentColumnNumber vf_GetLine
#define XML_ErrorString vf_ErrorString
#include <osmium/input/xml.hpp>
static void start_(const char* name, const XML_Char** attrs) { g_start(g_user, name, attrs); }
static void end_(const char* name) { g_end(g_user, name); }
// attribute lists, as expat hands them over: name, value, ..., null. Element e has the attributes an(e, i), av(e, i)
static std::string an(u64 e, u64 i) { return vf_strs("attribute", e, i); }
static std::string av(u64 e, u64 i) { return e == 4 && an(e, i) == "version" ? std::string("0.6") : vf_strs("value", e, i); }
struct Attr { const char* k; const char* v; };
#ifdef VF_ENGINE
struct Attrs {
    Attr* a;
    Attrs(u64 e, u64 n) : a((Attr*)vf_new_region(sizeof(Attr), "attributes")) {
        for (u64 i = 0; i < n; ++i) { a[i].k = vf_s_ptr(an(e, i).h); a[i].v = vf_s_ptr(av(e, i).h); }
        a[n].k = 0;
    }
    const XML_Char** list() { return (const XML_Char**)a; }
};
#else
#include <vector>
struct Attrs {
    std::vector<std::string> s; std::vector<const char*> p;
    Attrs(u64 e, u64 n) { for (u64 i = 0; i < n; ++i) { s.push_back(an(e, i)); s.push_back(av(e, i)); } for (u64 i = 0; i < 2 * n; ++i) p.push_back(s[i].c_str()); p.push_back(0); }
    const XML_Char** list() { return &p[0]; }
};
#endif
static const XML_Char* g_none[] = {0};
#endif
