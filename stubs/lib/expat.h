// Assumed contract of expat: declarations only; the specification defines what the functions do.
#ifndef VFS_EXPAT_H
#define VFS_EXPAT_H
extern "C" {
typedef char XML_Char; typedef char XML_LChar;
struct XML_ParserStruct; typedef struct XML_ParserStruct* XML_Parser;
typedef void (*XML_StartElementHandler)(void*, const XML_Char*, const XML_Char**);
typedef void (*XML_EndElementHandler)(void*, const XML_Char*);
enum XML_Status { XML_STATUS_ERROR = 0, XML_STATUS_OK = 1, XML_STATUS_SUSPENDED = 2 };
enum XML_Error { XML_ERROR_NONE = 0 };
#define XMLCALL
XML_Parser XML_ParserCreate(const XML_Char*); void XML_ParserFree(XML_Parser); void XML_SetUserData(XML_Parser, void*);
void XML_SetElementHandler(XML_Parser, XML_StartElementHandler, XML_EndElementHandler);
void* XML_GetBuffer(XML_Parser, int); enum XML_Status XML_ParseBuffer(XML_Parser, int, int); enum XML_Error XML_GetErrorCode(XML_Parser);
unsigned long XML_GetCurrentLineNumber(XML_Parser); unsigned long XML_GetCurrentColumnNumber(XML_Parser); const XML_LChar* XML_ErrorString(enum XML_Error);
}
#endif
