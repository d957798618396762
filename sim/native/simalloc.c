/* numpy data-memory seam: junk fill, alignment jitter, red zones or guard pages,
 * failing n-th allocation, live-byte accounting. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

/* mode bits */
enum { M_JUNK = 1, M_ZONES = 2, M_GUARD = 4, M_JITTER = 8 };
static int mode = 0;
static uint64_t seed = 1;
static long n_alloc = 0, fail_at = -1, n_failed = 0, live_bytes = 0, live_blocks = 0, n_corrupt = 0;
static int fail_sticky = 0;
static size_t min_fail = 0;
static uint64_t rs = 1;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

#define ZONE 256
typedef struct { uint64_t magic; size_t n; void *raw; size_t rawlen; uint64_t kind; uint64_t zseed; uint64_t pad[2]; } hdr_t; /* 64 bytes */
#define MAGIC 0x51D0A110C0FFEE11ULL

static void fill(unsigned char *p, size_t n, uint64_t s) {
    /* seeded junk: a mix of huge, tiny, negative and NaN-free doubles and odd bytes */
    size_t i = 0;
    while (i + 8 <= n) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 27;
        double d = ((double)(int64_t)(z >> 20)) / 1e9 - 4000.0;
        memcpy(p + i, &d, 8);
        i += 8;
    }
    while (i < n) { p[i] = (unsigned char)(s >> (8 * (i & 7))); i++; }
}

static int should_fail(size_t n) {
    if (n < min_fail) return 0;
    long i = n_alloc++;
    if (fail_at >= 0 && (i == fail_at || (fail_sticky && i > fail_at))) { n_failed++; return 1; }
    return 0;
}

static void *raw_alloc(size_t n, int zero) {
    size_t pg = 4096, z0 = (mode & (M_ZONES | M_GUARD)) ? ZONE : 0;
    size_t jit = (mode & M_JITTER) ? 16 * (rnd() % 4) : 0;
    unsigned char *user;
    hdr_t h;
    memset(&h, 0, sizeof h);
    h.magic = MAGIC; h.n = n; h.zseed = rnd();
    if ((mode & M_GUARD) && n >= 128) {
        size_t al = n & -n; if (al == 0 || al > 16) al = 16; /* at least the item alignment */
        size_t body = (n + al - 1) / al * al;
        size_t len = ((body + sizeof(hdr_t) + pg - 1) / pg) * pg;
        unsigned char *m = mmap(NULL, len + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) return NULL;
        mprotect(m + pg, len, PROT_READ | PROT_WRITE);
        /* layout: [guard page][header .. slack .. user][guard page] */
        user = m + pg + len - body;
        h.raw = m; h.rawlen = len + 2 * pg; h.kind = 1;
    } else {
        unsigned char *m = malloc(n + sizeof(hdr_t) + 2 * z0 + 64);
        if (!m) return NULL;
        user = m + sizeof(hdr_t) + z0 + jit;
        h.raw = m; h.rawlen = 0; h.kind = z0 ? 2 : 0;
        if (z0) { fill(user - z0, z0, h.zseed); fill(user + n, z0, h.zseed ^ 0x77); }
    }
    memcpy(user - (h.kind == 2 ? ZONE : 0) - sizeof(hdr_t), &h, sizeof h);
    if (zero) memset(user, 0, n);
    else if (mode & M_JUNK) fill(user, n, seed * 0x1234567ULL + h.zseed);
    live_bytes += (long)n; live_blocks++;
    return user;
}
static hdr_t *find(void *p) {
    hdr_t *a = (hdr_t *)((char *)p - sizeof(hdr_t));
    if (a->magic == MAGIC) return a;
    a = (hdr_t *)((char *)p - ZONE - sizeof(hdr_t));
    if (a->magic == MAGIC && a->kind == 2) return a;
    return NULL;
}
static void zone_check(hdr_t *h, unsigned char *user) {
    if (h->kind != 2) return;
    unsigned char z[ZONE];
    fill(z, ZONE, h->zseed);
    int bad = memcmp(z, user - ZONE, ZONE) != 0;
    fill(z, ZONE, h->zseed ^ 0x77);
    bad |= memcmp(z, user + h->n, ZONE) != 0;
    if (bad) n_corrupt++;
}
static void *h_malloc(void *c, size_t n) { (void)c; return should_fail(n) ? NULL : raw_alloc(n, 0); }
static void *h_calloc(void *c, size_t a, size_t b) { (void)c; if (b && a > SIZE_MAX / b) return NULL; return should_fail(a * b) ? NULL : raw_alloc(a * b, 1); }
static void h_free(void *c, void *p, size_t n) {
    (void)c; (void)n;
    if (!p) return;
    hdr_t *h = find(p);
    if (!h) { n_corrupt++; return; }
    zone_check(h, p);
    live_bytes -= (long)h->n; live_blocks--;
    h->magic = 0;
    if (h->kind == 1) munmap(h->raw, h->rawlen); else free(h->raw);
}
static void *h_realloc(void *c, void *p, size_t n) {
    if (!p) return h_malloc(c, n);
    hdr_t *h = find(p);
    if (!h) { n_corrupt++; return NULL; }
    if (should_fail(n)) return NULL;
    void *q = raw_alloc(n, 0);
    if (!q) return NULL;
    memcpy(q, p, h->n < n ? h->n : n);
    h_free(c, p, h->n);
    return q;
}
static PyDataMem_Handler handler = { "verif_sim", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free } };
static PyObject *old = NULL;

static PyObject *install(PyObject *s, PyObject *a) {
    (void)s; (void)a;
    /* numpy drops one reference too many to the handler when __array_finalize__ raises
     * (an injected interrupt may land there): give both handlers references to spare */
    static PyObject *cap = NULL;
    if (!cap) {
        cap = PyCapsule_New(&handler, "mem_handler", NULL);
        if (!cap) return NULL;
        for (int i = 0; i < 1000000; i++) Py_INCREF(cap);
    }
    PyObject *prev = PyDataMem_SetHandler(cap);
    if (!prev) return NULL;
    if (!old) old = prev; else Py_DECREF(prev);
    Py_RETURN_NONE;
}
static PyObject *uninstall(PyObject *s, PyObject *a) {
    (void)s; (void)a;
    if (old) { PyObject *p = PyDataMem_SetHandler(old); Py_XDECREF(p); }
    Py_RETURN_NONE;
}
static PyObject *configure(PyObject *s, PyObject *args) {
    (void)s;
    int m, sticky; unsigned long long sd; long fa; Py_ssize_t mf;
    if (!PyArg_ParseTuple(args, "iKlin", &m, &sd, &fa, &sticky, &mf)) return NULL;
    mode = m; seed = sd; rs = sd * 2654435761u + 12345; fail_at = fa; fail_sticky = sticky; min_fail = mf; n_alloc = 0; n_failed = 0;
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *s, PyObject *a) {
    (void)s; (void)a;
    return Py_BuildValue("{s:l,s:l,s:l,s:l,s:l}", "allocs", n_alloc, "failed", n_failed, "live_bytes", live_bytes, "live_blocks", live_blocks, "corrupt", n_corrupt);
}
static PyObject *check(PyObject *s, PyObject *arr) {
    (void)s;
    if (!PyArray_Check(arr)) Py_RETURN_NONE;
    PyArrayObject *a = (PyArrayObject *)arr;
    if (!(PyArray_FLAGS(a) & NPY_ARRAY_OWNDATA)) Py_RETURN_NONE;
    PyObject *h = PyArray_HANDLER(a);
    if (!h || PyCapsule_GetPointer(h, "mem_handler") != &handler) { PyErr_Clear(); Py_RETURN_NONE; }
    hdr_t *hd = find(PyArray_DATA(a));
    if (!hd) n_corrupt++; else zone_check(hd, PyArray_DATA(a));
    Py_RETURN_NONE;
}
static PyMethodDef meth[] = {
    {"install", install, METH_NOARGS, ""}, {"uninstall", uninstall, METH_NOARGS, ""},
    {"configure", configure, METH_VARARGS, ""}, {"stats", stats, METH_NOARGS, ""},
    {"check", check, METH_O, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simalloc", "", -1, meth, NULL, NULL, NULL, NULL};
PyMODINIT_FUNC PyInit_simalloc(void) {
    import_array();
    PyObject *h = PyDataMem_GetHandler();
    for (int i = 0; h && i < 1000000; i++) Py_INCREF(h);
    return PyModule_Create(&mod);
}
