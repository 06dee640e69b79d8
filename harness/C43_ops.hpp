// operations of the library on objects of their own; each gives a text that depends on `who` only
#pragma once
#include <string>
#include <vector>
struct LibOp { const char *name; std::string (*run)(int who); bool shared; };
extern const std::vector<LibOp> &libOps();
extern void libPrepare();             // types registered, shared objects made; nothing is read yet
extern std::string libTmp, libZip[2]; // scratch folder; archives
