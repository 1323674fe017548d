#pragma once
#include <string>
namespace once {
struct Service { const char *name; void *(*first)(); void (*add)(const std::string &); size_t (*size)(); bool (*has)(const std::string &); };
extern Service services[]; extern int n_services; double lock_sum();
}
