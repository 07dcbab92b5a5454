/* A stand-in for a Java virtual machine: just enough of JNI for native methods that pass strings and arrays of
   doubles. The simulator decides when an allocation of the machine fails and whether arrays are handed out as copies. */
#include <jni.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct Obj { int kind, len, borrowed, readonly; double *d; char *s; struct Obj *next; } Obj;
typedef struct Loan { Obj *o; void *p; int copy, critical; struct Loan *next; } Loan;
static Obj *objs;
static Loan *loans;
static int pending, copies = 1;
static long nalloc, fail_at = -1, fired;
static char err[300];
static struct JNINativeInterface_ table;
static const struct JNINativeInterface_ *envp = &table;

static void wrong(const char *fmt, ...) { if (!err[0]) { va_list a; va_start(a, fmt); vsnprintf(err, sizeof err, fmt, a); va_end(a); } }
static void unimplemented(void) { fprintf(stderr, "FAKEHOST: function not implemented\n"); _exit(70); }
static void quiet(const char *f) { if (pending) wrong("%s is called while an exception is pending", f); for (Loan *l = loans; l; l = l->next) if (l->critical) wrong("%s is called in a critical region", f); }
static int oom(void) { if (nalloc++ == fail_at) { fail_at = -1; fired++; pending = 1; return 1; } return 0; }
static Obj *mk(int kind, int len) { Obj *o = calloc(1, sizeof *o); o->kind = kind; o->len = len; o->next = objs; objs = o; if (kind == 'd') o->d = calloc(len ? len : 1, sizeof(double)); return o; }

static jclass FindClass(JNIEnv *e, const char *n) { quiet("FindClass"); Obj *o = mk('c', 0); o->s = strdup(n); return (jclass)o; }
static jint Throw(JNIEnv *e, jthrowable t) { pending = 1; return 0; }
static jint ThrowNew(JNIEnv *e, jclass c, const char *m) { quiet("ThrowNew"); if (!c) wrong("ThrowNew without a class"); pending = 1; return 0; }
static jthrowable ExceptionOccurred(JNIEnv *e) { return pending ? (jthrowable)mk('e', 0) : NULL; }
static void ExceptionDescribe(JNIEnv *e) {}
static void ExceptionClear(JNIEnv *e) { pending = 0; }
static jboolean ExceptionCheck(JNIEnv *e) { return (jboolean)(pending != 0); }
static void FatalError(JNIEnv *e, const char *m) { fprintf(stderr, "FatalError: %s\n", m); _exit(67); }
static jint GetVersion(JNIEnv *e) { return JNI_VERSION_1_8; }
static void DeleteRef(JNIEnv *e, jobject o) {}
static jobject SameRef(JNIEnv *e, jobject o) { return o; }
static jint EnsureLocalCapacity(JNIEnv *e, jint n) { return 0; }
static jint PushLocalFrame(JNIEnv *e, jint n) { return 0; }
static jobject PopLocalFrame(JNIEnv *e, jobject o) { return o; }
static jboolean IsSameObject(JNIEnv *e, jobject a, jobject b) { return (jboolean)(a == b); }

static Obj *is(jobject j, int kind, const char *f) { Obj *o = (Obj *)j; if (!o) { fprintf(stderr, "FAKEHOST: %s gets null\n", f); _exit(68); } if (o->kind != kind) wrong("%s gets an object of another type", f); return o; }
static void *lend(Obj *o, void *p, int copy, int critical) { Loan *l = calloc(1, sizeof *l); l->o = o; l->p = p; l->copy = copy; l->critical = critical; l->next = loans; loans = l; return p; }
static Loan *giveback(Obj *o, const void *p, const char *f) {
  for (Loan **l = &loans; *l; l = &(*l)->next) if ((*l)->p == p && (*l)->o == o) { Loan *r = *l; *l = r->next; return r; }
  wrong("%s releases what was not borrowed", f);
  return NULL;
}
static const char *GetStringUTFChars(JNIEnv *e, jstring s, jboolean *c) { quiet("GetStringUTFChars"); Obj *o = is(s, 's', "GetStringUTFChars"); if (oom()) return NULL; if (c) *c = JNI_TRUE; return lend(o, strdup(o->s), 1, 0); }
static void ReleaseStringUTFChars(JNIEnv *e, jstring s, const char *p) { Obj *o = is(s, 's', "ReleaseStringUTFChars"); Loan *l = giveback(o, p, "ReleaseStringUTFChars"); if (l) { free(l->p); free(l); } }
static jsize GetStringUTFLength(JNIEnv *e, jstring s) { quiet("GetStringUTFLength"); return (jsize)strlen(is(s, 's', "GetStringUTFLength")->s); }
static void GetStringUTFRegion(JNIEnv *e, jstring s, jsize a, jsize n, char *b) { quiet("GetStringUTFRegion"); memcpy(b, is(s, 's', "GetStringUTFRegion")->s + a, (size_t)n); b[n] = 0; }
static jstring NewStringUTF(JNIEnv *e, const char *s) { quiet("NewStringUTF"); if (oom()) return NULL; if (!s) return NULL; Obj *o = mk('s', (int)strlen(s)); o->s = strdup(s); return (jstring)o; }
static jsize GetArrayLength(JNIEnv *e, jarray a) { quiet("GetArrayLength"); return is(a, 'd', "GetArrayLength")->len; }
static jdoubleArray NewDoubleArray(JNIEnv *e, jsize n) { quiet("NewDoubleArray"); if (n < 0) wrong("NewDoubleArray with a negative size"); if (oom()) return NULL; return (jdoubleArray)mk('d', n); }
static jdouble *elements(jobject a, jboolean *c, int critical, const char *f) {
  quiet(f);
  Obj *o = is(a, 'd', f);
  if (oom()) return NULL;
  if (c) *c = (jboolean)copies;
  if (!copies) return lend(o, o->d, 0, critical);
  double *p = malloc(o->len ? (size_t)o->len * sizeof(double) : 1);
  memcpy(p, o->d, (size_t)o->len * sizeof(double));
  return lend(o, p, 1, critical);
}
static void release(jobject a, void *p, jint mode, const char *f) {
  Obj *o = is(a, 'd', f);
  Loan *l = giveback(o, p, f);
  if (!l) return;
  if (l->copy) {
    if (mode != JNI_ABORT) { if (o->readonly && memcmp(o->d, p, (size_t)o->len * sizeof(double))) wrong("%s changes the caller's array", f); memcpy(o->d, p, (size_t)o->len * sizeof(double)); }
    if (mode == JNI_COMMIT) { l->next = loans; loans = l; return; }
    free(p);
  }
  free(l);
}
static jdouble *GetDoubleArrayElements(JNIEnv *e, jdoubleArray a, jboolean *c) { return elements(a, c, 0, "GetDoubleArrayElements"); }
static void ReleaseDoubleArrayElements(JNIEnv *e, jdoubleArray a, jdouble *p, jint m) { release(a, p, m, "ReleaseDoubleArrayElements"); }
static void *GetPrimitiveArrayCritical(JNIEnv *e, jarray a, jboolean *c) { return elements(a, c, 1, "GetPrimitiveArrayCritical"); }
static void ReleasePrimitiveArrayCritical(JNIEnv *e, jarray a, void *p, jint m) { release(a, p, m, "ReleasePrimitiveArrayCritical"); }
static void GetDoubleArrayRegion(JNIEnv *e, jdoubleArray a, jsize s, jsize n, jdouble *b) { quiet("GetDoubleArrayRegion"); Obj *o = is(a, 'd', "GetDoubleArrayRegion"); if (s < 0 || n < 0 || s + n > o->len) { pending = 1; return; } memcpy(b, o->d + s, (size_t)n * sizeof(double)); }
static void SetDoubleArrayRegion(JNIEnv *e, jdoubleArray a, jsize s, jsize n, const jdouble *b) { quiet("SetDoubleArrayRegion"); Obj *o = is(a, 'd', "SetDoubleArrayRegion"); if (s < 0 || n < 0 || s + n > o->len) { pending = 1; return; } memcpy(o->d + s, b, (size_t)n * sizeof(double)); }

/* ---- for the simulator */
void *fj_env(void) {
  void **t = (void **)&table;
  for (size_t i = 0; i < sizeof table / sizeof *t; i++) t[i] = (void *)unimplemented;
#define S(f) table.f = f
  S(FindClass); S(Throw); S(ThrowNew); S(ExceptionOccurred); S(ExceptionDescribe); S(ExceptionClear); S(ExceptionCheck); S(FatalError); S(GetVersion);
  S(EnsureLocalCapacity); S(PushLocalFrame); S(PopLocalFrame); S(IsSameObject);
  S(GetStringUTFChars); S(ReleaseStringUTFChars); S(GetStringUTFLength); S(GetStringUTFRegion); S(NewStringUTF); S(GetArrayLength); S(NewDoubleArray);
  S(GetDoubleArrayElements); S(ReleaseDoubleArrayElements); S(GetPrimitiveArrayCritical); S(ReleasePrimitiveArrayCritical); S(GetDoubleArrayRegion); S(SetDoubleArrayRegion);
  table.DeleteLocalRef = DeleteRef; table.DeleteGlobalRef = DeleteRef; table.NewLocalRef = SameRef; table.NewGlobalRef = SameRef;
  return (void *)&envp;
}
void *fj_class(void) { return mk('c', 0); }
void *fj_string(const char *s) { Obj *o = mk('s', (int)strlen(s)); o->s = strdup(s); return o; }
void *fj_array(int n, const double *d) { Obj *o = mk('d', n); memcpy(o->d, d, (size_t)n * sizeof(double)); o->readonly = 1; return o; }
int fj_len(void *o) { return ((Obj *)o)->len; }
double *fj_data(void *o) { return ((Obj *)o)->d; }
const char *fj_str(void *o) { return ((Obj *)o)->s; }
void fj_begin(long fail, int cp) { nalloc = 0; fail_at = fail; fired = 0; pending = 0; copies = cp; err[0] = 0; }
/* what a call left behind: bit 0: exception, bit 1: failed allocation, bit 2: misuse */
int fj_end(void) { if (loans) wrong("the call keeps what it borrowed from the virtual machine"); fail_at = -1; return (pending != 0) | (fired ? 2 : 0) | (err[0] ? 4 : 0); }
const char *fj_error(void) { return err; }
void fj_clear(void) { /* objects of the call are garbage now */
  while (objs) { Obj *o = objs; objs = o->next; free(o->d); free(o->s); free(o); }
  while (loans) { Loan *l = loans; loans = l->next; free(l); }
}
