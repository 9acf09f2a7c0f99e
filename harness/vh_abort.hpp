// Include before spaceHub.hpp: where the library would end the program it throws vh::Aborted instead,
// so that a harness can judge the refusal and go on. (spacehub_abort prints a message and calls exit(0).)
#pragma once
#include <bits/stdc++.h>
namespace vh {
struct Aborted {};
[[noreturn]] inline void aborted(int) { throw Aborted{}; }
}  // namespace vh
#define exit(code) ::vh::aborted(code)
