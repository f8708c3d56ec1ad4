// An in-memory stand-in for the MongoDB C driver and the server behind it: databases, plain collections and GridFS
// stores, with failures placed by the script. Only what db_mongoc.cpp may reasonably call is present.
#ifndef FAKE_MONGOC_H
#define FAKE_MONGOC_H
#include <map>
#include <string>
#include <vector>
#include <bson.h>
namespace fake {
struct File { int id; std::string name, type, data; bool has_meta; bson_t* meta; bson_oid_t oid; };
struct Db { std::vector<std::string> colls; std::map<std::string, std::vector<File> > gfs; std::map<std::string, int> docs; };
extern std::map<std::string, Db> dbs;
// failures: kind -> one character per coming call; '0' works, '1' fails, 'L' (save) is done but reported as failed.
// kinds: find (query or reading the next result), read, write, save, remove, list (database and collection listings)
extern std::map<std::string, std::string> plan;
extern std::map<std::string, int> faults; // failures that happened
void Reset();
int Live(); // driver objects not released
}
#endif
