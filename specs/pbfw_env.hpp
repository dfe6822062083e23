// The PBF writer with the messages of specs/pbfw
#ifndef PBFW_ENV_HPP
#define PBFW_ENV_HPP
#include "file_env.hpp"
static ssize_t vf_write(int fd, const void* buf, size_t n);
#define write vf_write
#include <iostream>
#include <cstdio>
#define __XML_XMLWRITER_H__
#include <osmium/osm.hpp>
#include <osmium/handler.hpp>
#include <osmium/output/pbf.hpp>
using namespace Osmium::OSM;
typedef Osmium::Output::PBF Out;
typedef Osmium::OSMFile File;
static File a_file(bool history) { File f("x.pbf"); f.type(history ? File::FileType::History() : File::FileType::OSM()); return f; }
static Out* g_out;
#ifdef VF_ENGINE
static Out& a_writer(const File& f) { return *new Out(f); }
#else
static Out& a_writer(const File& f) { static Out* o = 0; delete o; return *(o = new Out(f)); }
#endif
#endif
