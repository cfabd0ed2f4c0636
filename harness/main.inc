// Driver part of every harness: included once, at the end of each harness.
namespace vf {
__thread Source* g_random = nullptr;
volatile __thread bool g_track_alloc = false;
volatile __thread uint64_t g_allocs = 0;
static vector<pair<string, TestFn>>& tests(){ static vector<pair<string, TestFn>> t; return t; }
void register_test(char const* name, TestFn fn){ tests().push_back({name, fn}); }
static map<string, double>& stats(){ static thread_local map<string, double> m; return m; } // what is counted in the threads of a test is not reported
void stat(char const* key, double n){ stats()[key] += n; }
void fill_stack(unsigned char pattern){
	volatile unsigned char a[24 * 1024];
	for(size_t i = 0; i < sizeof a; ++i) a[i] = pattern;
	asm volatile("" ::: "memory");
}
static char g_case[256];
static void print_case(char const* tag){
	char b[400]; int n = snprintf(b, sizeof b, "\n%s %s\n", tag, g_case);
	if(write(1, b, n) < 0){}
}
static void on_signal(int s){
	if(s == SIGPROF) { print_case("HANG"); _exit(4); }
	char t[32]; snprintf(t, sizeof t, "CRASH signal=%d", s); print_case(t);
	signal(s, SIG_DFL); raise(s);
}
}
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define VF_SAN 1
#endif
#endif
#ifdef VF_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void vf_death(){ vf::print_case("CRASH sanitizer"); }
#endif
int main(int argc, char** argv){
	using namespace vf;
	string test, hashfile; uint64_t seed = 1, first = 0, count = 1; bool thorough = false; int cpu = 60, max_viol = 3;
	for(int i = 1; i + 1 < argc; i += 2){
		string const a = argv[i], v = argv[i + 1];
		if(a == "--test") test = v; else if(a == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if(a == "--first") first = strtoull(v.c_str(), 0, 10); else if(a == "--count") count = strtoull(v.c_str(), 0, 10);
		else if(a == "--tier") thorough = v == "thorough"; else if(a == "--cpu") cpu = atoi(v.c_str());
		else if(a == "--hashes") hashfile = v;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if(test.empty()){ for(auto const& t: tests()) puts(t.first.c_str()); return 0; }
	TestFn fn = nullptr;
	for(auto const& t: tests()) if(t.first == test) fn = t.second;
	if(!fn){ fprintf(stderr, "no such test %s\n", test.c_str()); return 2; }
	signal(SIGPROF, on_signal);
#ifndef VF_SAN
	for(int s: {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, on_signal);
#else
	__sanitizer_set_death_callback(vf_death);
	signal(SIGFPE, on_signal); signal(SIGABRT, on_signal);
#endif
	uint64_t evals = 0, viol = 0, done = 0; vector<uint64_t> hashes; vector<string> notes;
	uint64_t th = 7; for(char ch: test) th = mix64(th ^ (unsigned char)ch);
	for(uint64_t i = first; i < first + count; ++i){
		snprintf(g_case, sizeof g_case, "test=%s case=%llu", test.c_str(), (unsigned long long)i);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &it, nullptr);
		Case c; c.test = test.c_str(); c.index = i; c.seed = seed; c.thorough = thorough;
		c.r = Rng(mix64(mix64(seed) ^ th) + 0x9E37 * i);
		try{ fn(c); }
		catch(Violation const& v){
			string w = v.what; for(char& ch: w) if(ch == '\n') ch = ' ';
			printf("VIOLATED test=%s case=%llu :: %s\n", test.c_str(), (unsigned long long)i, w.c_str()); fflush(stdout);
			if(++viol >= (uint64_t)max_viol) break;
		}
		g_track_alloc = false;
		evals += c.evals; ++done;
		if(!c.trivial && c.evals && hashes.size() < 400000) hashes.push_back(c.h.h);
		if(!c.note.empty() && notes.size() < 3) notes.push_back(c.note);
	}
	struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
	for(auto const& kv: stats()) printf("STAT %s %.17g\n", kv.first.c_str(), kv.second);
	for(auto const& n: notes) printf("SAMPLE %s\n", n.c_str());
	printf("DONE cases=%llu evals=%llu violations=%llu\n", (unsigned long long)done, (unsigned long long)evals, (unsigned long long)viol);
	fflush(stdout);
	if(!hashfile.empty()){ FILE* f = fopen(hashfile.c_str(), "wb"); if(f){ if(!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); } }
	return viol ? 3 : 0;
}
