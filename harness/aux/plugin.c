/* one plugin; ID is given on the command line.  Exports names every plugin
   has and one only it has. */
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern void pv_lib_event(int id, int what) __attribute__((weak));
static int state = ID * 1000;
__attribute__((constructor)) static void up(void) { if (pv_lib_event) pv_lib_event(ID, 1); }
__attribute__((destructor)) static void down(void) { if (pv_lib_event) pv_lib_event(ID, -1); }
static int my_id(void) { return ID; }
int ident(void) { return my_id(); }
int add(int a, int b) { return a + b + ID * 100000; }
int bump(void) { return ++state; }
int CAT(only_, ID)(int x) { return x * 31 + ID; }
long ident_long_name_with_prefix_ident(long x) { return x - ID; }
