/* Support code linked with the unmodified sources of /repo for concrete replay:
   deterministic random source, controllable clock, failure injection at the
   library boundary, struct layout queries. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <time.h>
#include <sodium.h>
#include "XK.h"
#include "tp-dkg.h"

/* ---- random source ---- */
static uint64_t rng_ctr; static unsigned char rng_key[32];
static const char *rng_name(void){return "vf";}
static void rng_buf(void *const buf,const size_t n){
  unsigned char nonce[8]; memcpy(nonce,&rng_ctr,8); rng_ctr++;
  if(n) crypto_stream_chacha20(buf,n,nonce,rng_key);
}
static uint32_t rng_u32(void){uint32_t x; rng_buf(&x,4); return x;}
static void rng_stir(void){} static int rng_close(void){return 0;}
static struct randombytes_implementation impl={rng_name,rng_u32,rng_stir,NULL,rng_buf,rng_close};
void vf_seed(uint64_t s){ memset(rng_key,0,32); memcpy(rng_key,&s,8); rng_ctr=0; }
int vf_init(void){ randombytes_set_implementation(&impl); vf_seed(1); return sodium_init(); }

/* ---- scalar random source: optional scripted values ---- */
static unsigned char *script; static size_t script_len, script_pos; static uint64_t scalar_draws;
void vf_script(unsigned char *p,size_t n){script=p;script_len=n;script_pos=0;scalar_draws=0;}
uint64_t vf_scalar_draws(void){return scalar_draws;}
void vf_scalar_random(unsigned char *r){
  scalar_draws++;
  if(script && script_pos<script_len){ memcpy(r,script+32*script_pos,32); script_pos++; return; }
  (crypto_core_ristretto255_scalar_random)(r);
}

/* ---- clock ---- */
static time_t now_=1700000000;
void vf_settime(uint64_t t){now_=(time_t)t;}
time_t vf_time(time_t*p){ if(p)*p=now_; return now_; }

/* ---- mlock accounting and failure injection ---- */
static int mlock_fail_at=-1, mlock_calls; static struct{void*p;size_t n;} lk[64]; static int nlk; static int bad_unlock;
void vf_mlock_reset(int fail_at){mlock_fail_at=fail_at;mlock_calls=0;nlk=0;bad_unlock=0;}
int vf_mlock_count(void){return mlock_calls;}
int vf_mlock(void *p,size_t n){ if(mlock_calls++==mlock_fail_at) return -1; if(nlk<64){lk[nlk].p=p;lk[nlk].n=n;nlk++;} return 0; }
int vf_munlock(void *p,size_t n){ sodium_memzero(p,n); for(int i=0;i<nlk;i++) if(lk[i].p==p&&lk[i].n==n){lk[i]=lk[--nlk];return 0;} bad_unlock++; return 0; }
int vf_locked(void){return nlk;}
int vf_bad_unlock(void){return bad_unlock;}

/* ---- Noise failure injection ---- */
static int nz_fail_at=-1, nz_calls;
void vf_noise_reset(int fail_at){nz_fail_at=fail_at;nz_calls=0;}
int vf_noise_calls(void){return nz_calls;}
static int nz(void){return nz_calls++==nz_fail_at;}
static long nz_live; /* channel sessions and devices created and not released */
long vf_live(int reset){ long l=nz_live; if(reset) nz_live=0; return l; }
#define MADE(x) do{ void *q_=(x); if(q_) nz_live++; return q_; }while(0)
void vf_session_free(Noise_XK_session_t*s){ nz_live--; Noise_XK_session_free(s); }
void vf_device_free(Noise_XK_device_t*d){ nz_live--; Noise_XK_device_free(d); }
Noise_XK_device_t* vf_device_create(uint32_t a,uint8_t*b,uint8_t*c,uint8_t*d,uint8_t*e){ if(nz()) return NULL; MADE(Noise_XK_device_create(a,b,c,d,e));}
Noise_XK_peer_t* vf_add_peer(Noise_XK_device_t*d,uint8_t*i,uint8_t*k){ return nz()?NULL:Noise_XK_device_add_peer(d,i,k);}
Noise_XK_session_t* vf_create_initiator(Noise_XK_device_t*d,uint32_t id){ if(nz()) return NULL; MADE(Noise_XK_session_create_initiator(d,id));}
Noise_XK_session_t* vf_create_responder(Noise_XK_device_t*d){ if(nz()) return NULL; MADE(Noise_XK_session_create_responder(d));}
static Noise_XK_rcode nzerr(void){Noise_XK_rcode r; memset(&r,0,sizeof r); r.tag=Noise_XK_Error; r.val.case_Error=Noise_XK_CIncorrect_transition; return r;}
Noise_XK_rcode vf_session_write(Noise_XK_encap_message_t*m,Noise_XK_session_t*s,uint32_t*l,uint8_t**o){ if(nz()) return nzerr(); return Noise_XK_session_write(m,s,l,o);}
Noise_XK_rcode vf_session_read(Noise_XK_encap_message_t**m,Noise_XK_session_t*s,uint32_t l,uint8_t*in){ if(nz()) return nzerr(); return Noise_XK_session_read(m,s,l,in);}

/* ---- layout ---- */
extern FILE* log_file;
void vf_log(int on){ if(log_file){fclose(log_file);log_file=NULL;} if(on) log_file=fopen("/dev/null","w"); }
void *vf_malloc(size_t n){ return malloc(n); }
void vf_free(void*p){ free(p); }
struct fld{const char*n;size_t o,s;};
#define P(f) {"peer." #f, offsetof(TP_DKG_PeerState,f), sizeof(((TP_DKG_PeerState*)0)->f)}
#define T(f) {"tp." #f, offsetof(TP_DKG_TPState,f), sizeof(((TP_DKG_TPState*)0)->f)}
#define C(f) {"ch." #f, offsetof(TP_DKG_Cheater,f), sizeof(((TP_DKG_Cheater*)0)->f)}
static const struct fld F[]={
 {"peer",0,sizeof(TP_DKG_PeerState)},{"tp",0,sizeof(TP_DKG_TPState)},{"ch",0,sizeof(TP_DKG_Cheater)},
 {"hdr",0,sizeof(TP_DKG_Message)},{"msg0",0,tpdkg_msg0_SIZE},{"msg8",0,tpdkg_msg8_SIZE},
 P(step),P(prev),P(sessionid),P(n),P(t),P(index),P(lt_sk),P(sig_pk),P(sig_sk),P(noise_pk),P(noise_sk),P(tp_sig_pk),P(tp_last_ts),P(last_ts),P(ts_epsilon),
 P(peer_sig_pks),P(peer_noise_pks),P(dev),P(noise_outs),P(noise_ins),P(commitments),P(shares),P(xshares),P(complaints_len),P(complaints),P(my_complaints_len),P(my_complaints),P(transcript),P(share),
 T(step),T(prev),T(sessionid),T(n),T(t),T(sig_pk),T(sig_sk),T(last_ts),T(ts_epsilon),T(peer_sig_pks),T(peer_lt_pks),T(commitments),T(encrypted_shares),T(complaints_len),T(complaints),T(cheater_len),T(cheaters),T(cheater_max),T(transcript),
 C(step),C(error),C(peer),C(other_peer),C(invalid_index),
};
long vf_field(const char*n,int want_size){ for(size_t i=0;i<sizeof F/sizeof*F;i++) if(!strcmp(F[i].n,n)) return (long)(want_size?F[i].s:F[i].o); return -1; }
