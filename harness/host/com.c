#include "com.h"

static Steinberg_tresult no_qi(void* t, const Steinberg_TUID iid, void** o) { *o = 0; return -1; }
static Steinberg_uint32 one(void* t) { return 1; }

static Steinberg_Vst_ParamID q_id(void* t) { return ((HQueue*)t)->id; }
static Steinberg_int32 q_n(void* t) { return ((HQueue*)t)->n; }
static Steinberg_tresult q_pt(void* t, Steinberg_int32 i, Steinberg_int32* o, Steinberg_Vst_ParamValue* v) {
  HQueue* q = t;
  if (i < 0 || i >= q->n || q->bad[i]) return 1;
  *o = q->offs[i];
  *v = q->vals[i];
  return 0;
}
static struct Steinberg_Vst_IParamValueQueueVtbl qv = { no_qi, one, one, q_id, q_n, q_pt, 0 };
HQueue* h_queue(uint32_t id, int n) {
  HQueue* q = calloc(1, sizeof *q);
  q->v = &qv; q->id = id; q->n = n;
  q->offs = calloc(n + 1, sizeof *q->offs); q->vals = calloc(n + 1, sizeof *q->vals); q->bad = calloc(n + 1, sizeof *q->bad);
  return q;
}
static Steinberg_int32 ch_n(void* t) { return ((HChanges*)t)->n; }
static struct Steinberg_Vst_IParamValueQueue* ch_get(void* t, Steinberg_int32 i) {
  HChanges* c = t;
  return i < 0 || i >= c->n ? 0 : (struct Steinberg_Vst_IParamValueQueue*)c->q[i];
}
static struct Steinberg_Vst_IParameterChangesVtbl cv = { no_qi, one, one, ch_n, ch_get, 0 };
HChanges* h_changes(int n) {
  HChanges* c = calloc(1, sizeof *c);
  c->v = &cv; c->n = n; c->q = calloc(n + 1, sizeof *c->q);
  return c;
}
static Steinberg_int32 ev_n(void* t) { return ((HEvents*)t)->n; }
static Steinberg_tresult ev_get(void* t, Steinberg_int32 i, struct Steinberg_Vst_Event* e) {
  HEvents* l = t;
  if (i < 0 || i >= l->n || l->bad[i]) return 1;
  *e = l->e[i];
  return 0;
}
static struct Steinberg_Vst_IEventListVtbl lv = { no_qi, one, one, ev_n, ev_get, 0 };
HEvents* h_events(int n) {
  HEvents* l = calloc(1, sizeof *l);
  l->v = &lv; l->n = n; l->e = calloc(n + 1, sizeof *l->e); l->bad = calloc(n + 1, sizeof *l->bad);
  return l;
}
/* a stream that may deliver and take only pieces, refuse to seek, or fail */
static Steinberg_tresult s_read(void* t, void* b, Steinberg_int32 n, Steinberg_int32* got) {
  HStream* s = t;
  s->calls++;
  if (s->readfail && s->calls >= s->readfail) { /* half of them with a count, which is void */ s->broke = 1; if (got && s->readfail % 2) *got = n; return 1; }
  int64_t k = s->len - s->pos;
  if (k > n) k = n;
  if (k < 0) k = 0;
  if (s->piece && k > s->piece) k = s->piece;
  memcpy(b, s->data + s->pos, k);
  s->pos += k;
  if (got) *got = k;
  return 0;
}
static Steinberg_tresult s_write(void* t, void* b, Steinberg_int32 n, Steinberg_int32* put) {
  HStream* s = t;
  s->calls++;
  if (s->writefail && s->calls >= s->writefail) { s->broke = 1; if (put && s->writefail % 2) *put = n; return 1; }
  if (s->stall && s->calls >= s->stall) { s->broke = 1; if (put) *put = 0; return 0; }
  if (s->piece && n > s->piece) n = s->piece;
  if (s->pos + n > s->cap) { s->cap = 2 * (s->pos + n); s->data = realloc(s->data, s->cap); }
  memcpy(s->data + s->pos, b, n);
  s->pos += n;
  if (s->pos > s->len) s->len = s->pos;
  if (put) *put = n;
  return 0;
}
static Steinberg_tresult s_seek(void* t, Steinberg_int64 pos, Steinberg_int32 mode, Steinberg_int64* r) {
  HStream* s = t;
  if (!(s->seekable & 2)) return 1;
  s->pos = mode == 0 ? pos : mode == 1 ? s->pos + pos : s->len + pos;
  if (r) *r = s->pos;
  return 0;
}
static Steinberg_tresult s_tell(void* t, Steinberg_int64* pos) {
  HStream* s = t;
  if (!(s->seekable & 1)) return 1;
  *pos = s->pos;
  return 0;
}
static struct Steinberg_IBStreamVtbl sv = { no_qi, one, one, s_read, s_write, s_seek, s_tell };
HStream* h_stream(void) {
  HStream* s = calloc(1, sizeof *s);
  s->v = &sv; s->seekable = 3; s->cap = 64; s->data = malloc(s->cap);
  return s;
}
static Steinberg_tresult edit(HHandler* h, int k, uint32_t id, double v) {
  if (h->n < 64) { h->kind[h->n] = k; h->id[h->n] = id; h->val[h->n] = v; h->n++; }
  return 0;
}
static Steinberg_tresult hd_b(void* t, Steinberg_Vst_ParamID id) { return edit(t, 0, id, 0); }
static Steinberg_tresult hd_p(void* t, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue v) { return edit(t, 1, id, v); }
static Steinberg_tresult hd_e(void* t, Steinberg_Vst_ParamID id) { return edit(t, 2, id, 0); }
static Steinberg_tresult hd_r(void* t, Steinberg_int32 f) { return 0; }
static struct Steinberg_Vst_IComponentHandlerVtbl hv = { no_qi, one, one, hd_b, hd_p, hd_e, hd_r };
HHandler* h_handler(void) {
  HHandler* h = calloc(1, sizeof *h);
  h->v = &hv;
  return h;
}
const char* h_iid(int k) {
  static const char none[16] = "no such thing..";
  switch (k) {
    case 0: return Steinberg_FUnknown_iid;
    case 1: return Steinberg_IPluginBase_iid;
    case 2: return Steinberg_Vst_IComponent_iid;
    case 3: return Steinberg_Vst_IAudioProcessor_iid;
    case 4: return Steinberg_Vst_IEditController_iid;
    case 5: return Steinberg_IPluginFactory_iid;
  }
  return none;
}
void h_storm(void* o, int n) {
  for (int i = 0; i < n; i++) {
    h_addref(o);
    h_release(o);
  }
}
