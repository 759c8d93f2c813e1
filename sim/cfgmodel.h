// Reference model of a configuration: an ordered tree of blocks and settings.
#pragma once
#include "sim.h"
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <memory>

namespace sim {

struct CBlock {
    size_t type = 0;
    std::string name, stype;
    std::vector<std::pair<std::string, std::vector<std::string>>> settings;
    std::vector<std::unique_ptr<CBlock>> subs;
};
extern const char *cfg_types[4];

struct CText {
    CBlock root;                                  // what the text means
    std::string text;                             // root text
    std::vector<std::pair<std::string, std::string>> files; // included files
};
struct CfgOpt { bool includes = true, big = false; unsigned maxfiles = 5; };
void gen_config(CText &t, const CfgOpt &o);
void cfg_pad(CText &t);                            // makes the text end near a buffer boundary
void cfg_register(ConfigurationScript &c);
// compares; returns "" when equal, else a description of the first difference
std::string cfg_diff(ConfigBlock *got, const CBlock &want, const std::string &where = "<root>", bool typed = true);
size_t cfg_walk(ConfigBlock *b, int depth = 0);   // touches everything; returns number of settings
void cfg_spit(const CText &t);                    // puts the included files on the disk

// Reference parser for any text. 0: the text denotes `root`; 1: it denotes no
// configuration, an error must be reported; 2: outside what is specified.
int cfg_parse(const std::string &text, const std::vector<std::pair<std::string, std::string>> &files, CBlock &root);

} // namespace sim
