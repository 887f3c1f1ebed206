#pragma once
/*
	What the library itself owns in a running process, for K03 and T01:
	  - the writable static objects of the executable that do not belong to the monitor
	    or to the compiler's run-time system (from the symbol table);
	  - the memory that holds generated code (anonymous or heap mappings with execute
	    permission);
	  - the loop recoding table.
	Snapshots are compared byte for byte.
*/
#include "bn.h"
#include <string>
#include <vector>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

int main(int argc, char **argv);

namespace libstate {

struct Region { std::string name; const char *p; size_t n; std::string saved; };

inline bool monitorSymbol(const std::string& s)
{
	static const char *const part[] = { "mon::", "ref::", "ops::", "libstate::", "std::", "__gnu", "vtable for", "VTT for", "typeinfo", "@", "guard variable for mon", "sanitizer", "(mon", "suite(" };
	for (size_t i = 0; i < sizeof(part) / sizeof(part[0]); i++) if (s.find(part[i]) != std::string::npos) return true;
	return s.empty() || s[0] == '_' || s.compare(0, 9, "completed") == 0 || s == "data_start" || s == "environ";
}

class State {
	std::vector<Region> r_;
	void add(const std::string& name, const void *p, size_t n) { if (!p || !n) return; Region r; r.name = name; r.p = (const char *)p; r.n = n; r_.push_back(r); }
public:
	size_t bytes, symbols;
	State() : bytes(0), symbols(0) {}
	bool find() // call after initialisation
	{
		FILE *fp = popen("nm -S -C --defined-only /proc/$PPID/exe 2>/dev/null", "r"); if (!fp) return false;
		std::vector<Region> syms; uintptr_t mainAddr = 0; char line[4096];
		while (fgets(line, sizeof line, fp)) {
			unsigned long long a, n; char ty; int at = 0;
			if (sscanf(line, "%llx %llx %c %n", &a, &n, &ty, &at) < 3 || !at) continue;
			std::string name = line + at; while (!name.empty() && (name[name.size() - 1] == '\n' || name[name.size() - 1] == ' ')) name.resize(name.size() - 1);
			if (name == "main") mainAddr = (uintptr_t)a;
			if (!strchr("bBdDuVgGsS", ty) || monitorSymbol(name)) continue;
			Region r; r.name = name; r.p = (const char *)(uintptr_t)a; r.n = (size_t)n; syms.push_back(r);
		}
		pclose(fp);
		if (!mainAddr || syms.empty()) return false;
		const intptr_t bias = (intptr_t)(uintptr_t)&main - (intptr_t)mainAddr;
		for (size_t i = 0; i < syms.size(); i++) add(syms[i].name, syms[i].p + bias, syms[i].n);
		symbols = r_.size();
		fp = fopen("/proc/self/maps", "r"); if (!fp) return false;
		while (fgets(line, sizeof line, fp)) {
			unsigned long long b, e, off, ino; char perm[8], dev[16]; int at = 0;
			if (sscanf(line, "%llx-%llx %7s %llx %15s %llu %n", &b, &e, perm, &off, dev, &ino, &at) < 6) continue;
			if (perm[2] != 'x' || ino != 0) continue; std::string nm = line + at; if (nm.find("[v") == 0) continue; // vdso, vsyscall
			add("generated code", (const void *)(uintptr_t)b, (size_t)(e - b));
		}
		fclose(fp);
		if (!bn::Param::siTbl.empty()) add("loop recoding", &bn::Param::siTbl[0], bn::Param::siTbl.size() * sizeof(bn::Param::siTbl[0]));
#ifdef BN_SUPPORT_SNARK
		if (!bn::Param::zReplTbl.empty()) add("recoding of z", &bn::Param::zReplTbl[0], bn::Param::zReplTbl.size() * sizeof(bn::Param::zReplTbl[0]));
#endif
		for (size_t i = 0; i < r_.size(); i++) bytes += r_[i].n;
		return true;
	}
	void save() { for (size_t i = 0; i < r_.size(); i++) r_[i].saved.assign(r_[i].p, r_[i].n); }
	// the first region that is not as saved, or "" ; it is saved again as it is now
	std::string changed()
	{
		for (size_t i = 0; i < r_.size(); i++) { Region& r = r_[i]; if (memcmp(r.p, r.saved.data(), r.n) != 0) { size_t k = 0; while (r.p[k] == r.saved[k]) k++; char b[64]; sprintf(b, " at byte %zu of %zu", k, r.n); r.saved.assign(r.p, r.n); return r.name + b; } }
		return "";
	}
	std::string names() const { std::string s; for (size_t i = 0; i < r_.size(); i++) s += r_[i].name + ","; return s; }
};

} // libstate
