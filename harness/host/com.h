/* The host's side of the interface: objects a host hands to a plugin, and calls through its tables. */
#ifndef VERIF_COM_H
#define VERIF_COM_H
#include "vst3/vst3_c_api.h"
#include <stdlib.h>
#include <string.h>

extern struct Steinberg_IPluginFactory* GetPluginFactory(void);
extern int ModuleEntry(void*);
extern int ModuleExit(void);

typedef struct { struct Steinberg_Vst_IParamValueQueueVtbl* v; uint32_t id; int n; int32_t* offs; double* vals; int* bad; } HQueue;
typedef struct { struct Steinberg_Vst_IParameterChangesVtbl* v; int n; HQueue** q; } HChanges;
typedef struct { struct Steinberg_Vst_IEventListVtbl* v; int n; struct Steinberg_Vst_Event* e; int* bad; } HEvents;
typedef struct { struct Steinberg_IBStreamVtbl* v; unsigned char* data; int64_t len, cap, pos; int seekable, piece, readfail, writefail, stall, calls, broke; } HStream;
typedef struct { struct Steinberg_Vst_IComponentHandlerVtbl* v; int n; int kind[64]; uint32_t id[64]; double val[64]; } HHandler;

HQueue* h_queue(uint32_t id, int n);
HChanges* h_changes(int n);
HEvents* h_events(int n);
HStream* h_stream(void);
HHandler* h_handler(void);

typedef struct Steinberg_Vst_IComponent IComp;
typedef struct Steinberg_Vst_IAudioProcessor IProc;
typedef struct Steinberg_Vst_IEditController ICtl;
typedef struct Steinberg_IPluginFactory IFac;
typedef struct Steinberg_FUnknown IUnk;

const char* h_iid(int k);
static inline int h_qi(void* o, int iid, void** r) { return ((IUnk*)o)->lpVtbl->queryInterface(o, h_iid(iid), r); }
static inline uint32_t h_addref(void* o) { return ((IUnk*)o)->lpVtbl->addRef(o); }
static inline uint32_t h_release(void* o) { return ((IUnk*)o)->lpVtbl->release(o); }
void h_storm(void* o, int n);
static inline int h_create(IFac* f, const char* cid, int iid, void** r) { return f->lpVtbl->createInstance(f, cid, h_iid(iid), r); }
static inline int h_count(IFac* f) { return f->lpVtbl->countClasses(f); }
static inline int h_facinfo(IFac* f, struct Steinberg_PFactoryInfo* i) { return f->lpVtbl->getFactoryInfo(f, i); }
static inline int h_clsinfo(IFac* f, int k, struct Steinberg_PClassInfo* i) { return f->lpVtbl->getClassInfo(f, k, i); }

static inline int c_init(IComp* c) { return c->lpVtbl->initialize(c, 0); }
static inline int c_term(IComp* c) { return c->lpVtbl->terminate(c); }
static inline int c_iomode(IComp* c, int m) { return c->lpVtbl->setIoMode(c, m); }
static inline int c_cid(IComp* c, char* id) { return c->lpVtbl->getControllerClassId(c, id); }
static inline int c_buscount(IComp* c, int t, int d) { return c->lpVtbl->getBusCount(c, t, d); }
static inline int c_businfo(IComp* c, int t, int d, int i, struct Steinberg_Vst_BusInfo* b) { return c->lpVtbl->getBusInfo(c, t, d, i, b); }
static inline int c_actbus(IComp* c, int t, int d, int i, int s) { return c->lpVtbl->activateBus(c, t, d, i, s); }
static inline int c_active(IComp* c, int s) { return c->lpVtbl->setActive(c, s); }
static inline int c_setstate(IComp* c, HStream* s) { return c->lpVtbl->setState(c, (struct Steinberg_IBStream*)s); }
static inline int c_getstate(IComp* c, HStream* s) { return c->lpVtbl->getState(c, (struct Steinberg_IBStream*)s); }

static inline int p_arr(IProc* p, uint64_t* i, int ni, uint64_t* o, int no) { return p->lpVtbl->setBusArrangements(p, i, ni, o, no); }
static inline int p_getarr(IProc* p, int d, int i, uint64_t* a) { return p->lpVtbl->getBusArrangement(p, d, i, a); }
static inline int p_size(IProc* p, int s) { return p->lpVtbl->canProcessSampleSize(p, s); }
static inline uint32_t p_latency(IProc* p) { return p->lpVtbl->getLatencySamples(p); }
static inline uint32_t p_tail(IProc* p) { return p->lpVtbl->getTailSamples(p); }
static inline int p_setup(IProc* p, double rate, int max) {
  struct Steinberg_Vst_ProcessSetup s = { 0, 0, max, rate };
  return p->lpVtbl->setupProcessing(p, &s);
}
static inline int p_processing(IProc* p, int s) { return p->lpVtbl->setProcessing(p, s); }
static inline int p_process(IProc* p, struct Steinberg_Vst_ProcessData* d) { return p->lpVtbl->process(p, d); }

static inline int e_count(ICtl* e) { return e->lpVtbl->getParameterCount(e); }
static inline int e_info(ICtl* e, int i, struct Steinberg_Vst_ParameterInfo* p) { return e->lpVtbl->getParameterInfo(e, i, p); }
static inline int e_text(ICtl* e, uint32_t id, double v, int16_t* s) { return e->lpVtbl->getParamStringByValue(e, id, v, s); }
static inline int e_parse(ICtl* e, uint32_t id, int16_t* s, double* v) { return e->lpVtbl->getParamValueByString(e, id, s, v); }
static inline double e_plain(ICtl* e, uint32_t id, double v) { return e->lpVtbl->normalizedParamToPlain(e, id, v); }
static inline double e_norm(ICtl* e, uint32_t id, double v) { return e->lpVtbl->plainParamToNormalized(e, id, v); }
static inline double e_get(ICtl* e, uint32_t id) { return e->lpVtbl->getParamNormalized(e, id); }
static inline int e_set(ICtl* e, uint32_t id, double v) { return e->lpVtbl->setParamNormalized(e, id, v); }
static inline int e_handler(ICtl* e, HHandler* h) { return e->lpVtbl->setComponentHandler(e, (struct Steinberg_Vst_IComponentHandler*)h); }
static inline int e_view(ICtl* e) { return e->lpVtbl->createView(e, "editor") != 0; }
static inline int e_init(ICtl* e) { return e->lpVtbl->initialize(e, 0); }
static inline int e_term(ICtl* e) { return e->lpVtbl->terminate(e); }
static inline int c_routing(IComp* c) {
  struct Steinberg_Vst_RoutingInfo a = { 0, 0, 0 }, b = { 0, 0, 0 };
  return c->lpVtbl->getRoutingInfo(c, &a, &b);
}
static inline int e_compstate(ICtl* e, HStream* s) { return e->lpVtbl->setComponentState(e, (struct Steinberg_IBStream*)s); }
static inline int e_setstate(ICtl* e, HStream* s) { return e->lpVtbl->setState(e, (struct Steinberg_IBStream*)s); }
static inline int e_getstate(ICtl* e, HStream* s) { return e->lpVtbl->getState(e, (struct Steinberg_IBStream*)s); }

static inline void h_noteon(struct Steinberg_Vst_Event* e, int ch, int p, float v) { e->type = 0; e->Steinberg_Vst_Event_noteOn.channel = ch; e->Steinberg_Vst_Event_noteOn.pitch = p; e->Steinberg_Vst_Event_noteOn.velocity = v; }
static inline void h_noteoff(struct Steinberg_Vst_Event* e, int ch, int p, float v) { e->type = 1; e->Steinberg_Vst_Event_noteOff.channel = ch; e->Steinberg_Vst_Event_noteOff.pitch = p; e->Steinberg_Vst_Event_noteOff.velocity = v; }
static inline void h_bus(struct Steinberg_Vst_AudioBusBuffers* b, int i, int n, float** ch) { b[i].numChannels = n; b[i].Steinberg_Vst_AudioBusBuffers_channelBuffers32 = ch; }
#endif
