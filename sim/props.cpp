#include "props.h"
#include <cstdint>
#include <sys/mman.h>
#define M(x) Machine* make_##x();
#define MACHINES M(buffer) M(array) M(htable) M(rbtree) M(list) M(value) M(dict) M(path) M(memchunk) M(malloca) M(cmdline) M(stream) M(ref) M(base64) M(hex) M(crc) M(fnv) M(number) M(footprint)
MACHINES
#undef M
#define M(x) {#x, make_##x, true, true},
const MachineInfo g_machines[] = { MACHINES };
const int g_nmachines = sizeof g_machines / sizeof *g_machines;
#define MOST "*,-leak,"
#define ALL "*,"
#define HEAPY {"buffer", "array", "htable", "rbtree", "list", "value", "dict", "path", "memchunk", "malloca", "stream"}
const PropDef g_props[] = {
    {"C01", K_PLAIN, MODE_SHARED, {"buffer"}, MOST, {120000, 1440000}, 100, 3, 25, false, false, false, false, 8},
    {"C02", K_PLAIN, MODE_SHARED, {"array"}, MOST, {120000, 1440000}, 100, 3, 25, false, false, false, false, 8},
    {"C03", K_PLAIN, MODE_SHARED, {"htable"}, MOST, {40000, 480000}, 100, 3, 25, false, false, false, false, 8},
    {"C04", K_PLAIN, MODE_SHARED, {"rbtree"}, MOST, {40000, 480000}, 100, 3, 25, false, false, false, false, 8},
    {"C05", K_PLAIN, MODE_SHARED, {"list"}, MOST, {120000, 1440000}, 100, 3, 25, false, false, false, false, 8},
    {"C06", K_PLAIN, MODE_SHARED, {"value"}, MOST, {60000, 720000}, 100, 3, 25, false, false, false, false, 8},
    {"C07", K_PLAIN, MODE_SHARED, {"dict"}, MOST, {60000, 720000}, 100, 3, 25, false, false, false, false, 8},
    {"C08", K_PLAIN, MODE_SHARED, {"path"}, MOST, {60000, 720000}, 100, 3, 25, false, false, false, false, 8},
    {"C09", K_PLAIN, MODE_SHARED, HEAPY, ",leak,double-free,bad-free,use-after-free,out-of-bounds,segv,overlap,crash,", {80000, 960000}, 100, 1, 0, false, false, true},
    {"C10", K_PLAIN, MODE_SHARED, {"memchunk"}, ALL, {120000, 1440000}, 100, 3, 25, false, false, false, false, 8},
    {"C11", K_PLAIN, MODE_SHARED, {"malloca"}, ALL, {120000, 1440000}, 60, 1, 0},
    {"C12", K_PLAIN, MODE_SHARED, {"cmdline"}, ALL, {160000, 1920000}, 60, 1, 0, false, true, false, false, 20},
    {"C13", K_REL, MODE_ISOLATED, {"buffer", "array", "htable", "rbtree", "list", "value", "dict", "path", "memchunk", "cmdline", "base64", "hex", "crc", "fnv"}, ALL, {60000, 720000}, 100, 4, 100, true, false, false, true},
    {"C14", K_REL, MODE_READERS, {"buffer", "array", "htable", "rbtree", "list", "value", "dict", "path"}, ALL, {40000, 480000}, 100, 4, 100, true, false, false, true},
    {"C15", K_PLAIN, MODE_SHARED, {"stream"}, ALL, {200000, 2400000}, 100, 1, 0},
    {"C16", K_PLAIN, MODE_FREE, {"ref"}, ALL, {200000, 2400000}, 50, 4, 100, true, false, false, true},
    {"C17", K_RETRY, MODE_SHARED, {"buffer", "array", "htable", "value", "dict", "path", "memchunk", "stream"}, MOST, {80000, 960000}, 100, 1, 0, false, false, true},
    {"C18", K_PLAIN, MODE_SHARED, {"fnv"}, ALL, {80000, 960000}, 60, 1, 0, false, true, false, false, 15},
    {"C19", K_PLAIN, MODE_SHARED, {"base64"}, ALL, {200000, 2400000}, 60, 1, 0, false, true, false, false, 15},
    {"C20", K_PLAIN, MODE_SHARED, {"hex"}, ALL, {200000, 2400000}, 60, 1, 0, false, true, false, false, 15},
    {"C21", K_PLAIN, MODE_SHARED, {"crc"}, ALL, {80000, 960000}, 60, 1, 0, false, true, false, false, 15},
    {"C22", K_PLAIN, MODE_SHARED, {"number"}, MOST, {120000, 1440000}, 100, 3, 25, false, false, false, false, 8},
    {"C24", K_PLAIN, MODE_SHARED, {"footprint"}, MOST, {40000, 480000}, 60, 1, 0},
};
const int g_nprops = sizeof g_props / sizeof *g_props;
const PropDef* prop_by_id(const char* id) { for(int i = 0; i < g_nprops; i++) if(!__builtin_strcmp(g_props[i].id, id)) return &g_props[i]; return nullptr; }
