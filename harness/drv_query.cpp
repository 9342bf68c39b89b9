// Prints what the library says this machine is, for comparison with what the machine's
// (stand-in) tools were made to say. Then a product on that description.
#include "gemm.h"
#include "caller.h"
using namespace vh;

int main(int argc, char** argv) {
	split_stdout();
	progress_init();
	int caller = argc > 1 ? atoi(argv[1]) : 0;
	set_case(fmt("query, caller %d", caller));
	// callers that have no terminal, no interest in their children, or many files open
	if(caller == 1) signal(SIGCHLD, SIG_IGN);
	if(caller == 2 || caller == 3) close(0);
	if(caller == 3) close(1);
	if(caller == 4) for(int i = 0; i < 200; i++) if(dup(2) < 0) break;
	if(caller == 5) { sigset_t s; sigfillset(&s); sigprocmask(SIG_BLOCK, &s, NULL); }
	if(caller == 6) {
		// a program that follows the user's locale; its numbers may have a decimal comma
		if(!setlocale(LC_ALL, "")) setlocale(LC_NUMERIC, "de_DE");
		count(localeconv()->decimal_point[0] == ',' ? "comma" : "point");
	}
	Caller was = Caller::now();
	srand(4711);
	cake_cntx_t* a = cake_query_cntx();
	cake_cntx_t* b = cake_query_cntx();
	cake_cntx_t* t = cake_query_cntx_torch(123456, 7654321);
	int drawn = rand();
	srand(4711);
	if(drawn != rand()) viol("rand-drawn", "the queries drew from the caller's sequence of random numbers");
	const char* other = was.differs(Caller::now());
	if(other) viol("caller-state", fmt("the queries changed the caller's %s", other));
	fprintf(out(), "X %d %d %d %d %d %d %d %d %g\n", a->L1, a->L2, a->L3, a->ncores, a->mr, a->nr, a->m_map, a->n_map, a->alpha_n);
	if(a->L1 != b->L1 || a->L2 != b->L2 || a->L3 != b->L3 || a->ncores != b->ncores || a->mr != b->mr || a->nr != b->nr || a->m_map != b->m_map || a->n_map != b->n_map)
		viol("query-unstable", "two queries differ");
	if(t->L1 != a->L1 || t->L2 != 123456 || t->L3 != 7654321 || t->ncores != a->ncores)
		viol("query-given", fmt("query with L2 123456 and L3 7654321 given: L1 %d (%d), L2 %d, L3 %d, %d (%d) cores", t->L1, a->L1, t->L2, t->L3, t->ncores, a->ncores));
	if(a->L1 != get_cache_size(1) || a->L2 != get_cache_size(2) || a->L3 != get_cache_size(3) || a->ncores != get_num_physical_cores())
		viol("query-parts", "the context differs from its parts");
	for(cake_cntx_t* x : {a, t}) {
		if(x->mr != MR_MIN + MR_FACT * x->m_map || x->nr != NR_MIN + NR_FACT * x->n_map || x->m_map < 0 || x->n_map < 0 ||
			x->m_map >= (int) (sizeof kernel_map / sizeof kernel_map[0]) || x->n_map >= (int) (sizeof kernel_map[0] / sizeof kernel_map[0][0]))
			viol("query-tile", fmt("tile %dx%d, kernel %d %d", x->mr, x->nr, x->m_map, x->n_map));
	}
	// usable: a product on it where the sizes are sane
	if(a->L1 >= 4096 && a->L2 >= 8192 && a->L2 <= 64 << 20 && a->ncores <= 64) for(int e = 0; e < 4; e++) for(cake_cntx_t* x : {a, t}) {
		Case c;
		c.e = (Entry) e; c.M = 65; c.N = 47; c.K = 33; c.p = a->ncores < 6 ? a->ncores : 6;
		set_case(c.str());
		Rng r(e + 5);
		Bufs m(c);
		fill(m, c, INTS, r);
		call(c, m.A.p, m.B.p, m.C.p, x);
		check_product(c, m.A.p, m.B.p, m.C.p, INTS, "wrong-product");
		count("products");
	}
	free(a); free(b); free(t);
	for(auto& c : counters()) fprintf(out(), "S %s %.0f\n", c.first.c_str(), c.second);
	fprintf(out(), "DONE\n");
	fflush(out());
	return 0;
}
