// libxml2's writer as the XML writer sees it: what is written goes to the specification, one element, attribute or end at
// a time. Attributes written with a format have the text printf gives them.
#ifndef VF_XMLWRITER_H
#define VF_XMLWRITER_H
typedef unsigned char xmlChar;
#define BAD_CAST (xmlChar*)
typedef struct vf_xmlOutputBuffer* xmlOutputBufferPtr;
typedef struct vf_xmlTextWriter* xmlTextWriterPtr;
xmlOutputBufferPtr xmlOutputBufferCreateFd(int fd, void*);
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr);
void xmlFreeTextWriter(xmlTextWriterPtr);
inline int xmlTextWriterSetIndent(xmlTextWriterPtr, int) { return 0; }
inline int xmlTextWriterSetIndentString(xmlTextWriterPtr, const xmlChar*) { return 0; }
int xmlTextWriterStartDocument(xmlTextWriterPtr, const char*, const char*, const char*);
int xmlTextWriterStartElement(xmlTextWriterPtr, const xmlChar*);
int xmlTextWriterEndElement(xmlTextWriterPtr);
int xmlTextWriterWriteAttribute(xmlTextWriterPtr, const xmlChar* name, const xmlChar* value);
inline int vf_attr(xmlTextWriterPtr w, const xmlChar* n, const std::string& s) { return xmlTextWriterWriteAttribute(w, n, (const xmlChar*)s.c_str()); }
inline bool vf_is(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
inline int vf_int(xmlTextWriterPtr w, const xmlChar* n, const char* f, i64 v) {
    if (vf_is(f, "%d")) return vf_attr(w, n, vf_dec((i32)v));
    if (vf_is(f, "%u")) return vf_attr(w, n, vf_dec((i64)(u32)v));
    vf_ensure("the format fits the argument", vf_is(f, "%ld") || vf_is(f, "%lld") || vf_is(f, "%jd")); return vf_attr(w, n, vf_dec(v));
}
inline bool vf_narrow(const char* f) { return vf_is(f, "%d") || vf_is(f, "%u"); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, int v) { vf_ensure("the format fits the argument", vf_narrow(f)); return vf_int(w, n, f, v); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, unsigned v) { vf_ensure("the format fits the argument", vf_narrow(f)); return vf_int(w, n, f, (i64)v); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, long v) { vf_ensure("the format fits the argument", !vf_narrow(f)); return vf_int(w, n, f, v); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, long long v) { return vf_format(w, n, f, (long)v); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, double v) { vf_ensure("coordinates are written with seven digits", vf_is(f, "%.7f")); return vf_attr(w, n, vf_dbl("%.7f", v)); }
inline int vf_format(xmlTextWriterPtr w, const xmlChar* n, const char* f, const char* s) { vf_ensure("the format fits the argument", vf_is(f, "%s")); return xmlTextWriterWriteAttribute(w, n, (const xmlChar*)s); }
#define xmlTextWriterWriteFormatAttribute vf_format
#endif
