#pragma once
#include <string>
namespace par {
void Seed(unsigned long long s);   // the schedules to come
std::string Take();                // what the parallel regions since the last call accessed
}
