#ifndef MANAGER_HPP
#define MANAGER_HPP
struct Holder { virtual ~Holder() {} };
Holder* makeManager();
#endif
