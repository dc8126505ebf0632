From 37002021ff75c810b58d57108281e8f1ea4a1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 01/20] fix: unlock the hashed input when blinding fails early

oprf_Blind returned with its temporary still locked and not wiped when
hashing to the group failed.
---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..cdb3e2b 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From b63fb4606d64c8685a546ef39f783ba606da5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 02/20] fix: terminate share loops for 255 participants

With n=255 an 8 bit counter never exceeds n. The loops wrapped around
and wrote before the start of the shares array.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..44bb5a9 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(int j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +147,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(int i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..39fba8f 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -85,15 +85,15 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
   uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
+  int i;
   for(i=0;i<threshold-1;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
-- 
2.43.0


From 3843f34cb9c2fb96ef67974e36c642fc6f8ba9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 03/20] fix: report dealers with invalid commitments and keep
 verifying

An invalid commitment of one dealer ended the verification of all
dealers early, without that dealer or any later one being reported.
---
 src/dkg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 44bb5a9..1f113d6 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -150,7 +150,6 @@ int dkg_verify_commitments(const uint8_t n,
   for(int i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
-- 
2.43.0


From f5643ef55bd05e99b0fe228a80af379e9272a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 04/20] fix: check the number of responses before sizing the
 stack array

---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 39fba8f..57b3f9c 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -137,8 +137,8 @@ int toprf_thresholdmult(const size_t response_len,
   memset(result,0,crypto_scalarmult_ristretto255_BYTES);
 
   // sort the responses by their indexes
-  uint8_t indexed_indexes[response_len];
   if(response_len>255) return 1;
+  uint8_t indexed_indexes[response_len];
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   uint8_t indexes[response_len];
-- 
2.43.0


From 8cfb136ab0175c7663d1d0f22ae30c453f7574f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 05/20] fix: fail combining when a response is not a valid
 element

Invalid responses were silently left out of the sum while success was
reported.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 57b3f9c..44a68a9 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,7 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From bec97d38ab0ad9b1e65b304a0fd8d7138d882c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 06/20] fix: set the index of a threshold evaluation result

The first byte of the result was left uninitialised.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index 44a68a9..af2a26b 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -170,6 +170,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=k->index;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From f5cbd9ffe963e77779144309ac78d1c69e430bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 07/20] fix: sign and verify the message body, not only the
 header

As documented the signature covers the message header and body. Only
the header was signed, so bodies could be altered in transit.
---
 src/tp-dkg.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..4bde41d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -141,14 +141,8 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   }
 #endif
 
-  const size_t unsigned_buf_len = msg_buf_len - crypto_sign_BYTES;
-
-  uint8_t with_sessionid[unsigned_buf_len + tpdkg_sessionid_SIZE];
-  memcpy(with_sessionid, msg_buf + crypto_sign_BYTES, unsigned_buf_len);
-  memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
-
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From 854c7afa2c44c2b6f0dbf4dfbc1ae833a36498b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 08/20] fix: bound the number of complaints by the real message
 length

The length field was used in network byte order, so the check never
applied and the complaint list was read beyond the message. A message
with an impossible count is now also reported against its sender.
---
 src/tp-dkg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 4bde41d..64ea18e 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1190,10 +1190,13 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(ntohl(msg->len) - sizeof(TP_DKG_Message) <= msg->data[0]) {
+      if(add_cheater(ctx, 16, 64+1, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0] && (k+1)<ntohl(msg->len)-sizeof(TP_DKG_Message);k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1264,10 +1267,10 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(ntohl(msg9->len) - sizeof(TP_DKG_Message) <= msg9->data[0]) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0] && (k+1)<ntohl(msg9->len)-sizeof(TP_DKG_Message);k++) {
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
-- 
2.43.0


From eabe86bf0343ef07929e3bd9a3403f62eb50de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 09/20] fix: end the protocol when collecting complaints fails

A failed complaint step left the orchestrator in a state where the
protocol could be continued.
---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 64ea18e..228cf1d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1620,6 +1620,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
       ctx->step++;
     }
     ctx->step++;
+    if(ret!=0) ctx->step=99; // so that not_done reports done
     return ret;
   }
   case 7: {ret = tp_step18_handler(ctx, input, input_len, output, output_len); break;}
-- 
2.43.0


From bccb6c6c4c0561679ca5d112e8566b2cd4c3a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 10/20] fix: do not log an invalid handshake message when
 logging is off

---
 src/tp-dkg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 228cf1d..b5cfde7 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -879,8 +879,10 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-        dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        if(log_file!=NULL) {
+          fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+          dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        }
         continue;
       }
       memcpy(wptr, (*inputs)[j][i], tpdkg_msg4_SIZE);
-- 
2.43.0


From 154d097f3c755554b0484016d920eb5714eeec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 11/20] fix: fail a step whose noise handshake failed and drop
 the freed session

Failed handshakes were ignored and left pointers to freed sessions
behind, which later steps and the final cleanup used again. The session
tables now also start out empty, so that releasing a peer early is safe.
---
 src/tp-dkg.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index b5cfde7..279cd33 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -169,11 +169,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -200,6 +202,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 2;
   }
 
@@ -207,6 +210,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -218,11 +222,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -245,12 +251,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -262,6 +270,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
@@ -269,6 +278,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -576,7 +586,11 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
@@ -830,6 +844,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
   uint8_t dummy[32]={0}; // the following function needs a deserialization key, which we never use.
 
   ctx->dev = Noise_XK_device_create(13, (uint8_t*) "dpkg p2p v0.1", iname, dummy, ctx->noise_sk);
+  if(ctx->dev==NULL) return 3;
 
   TP_DKG_Message* msg3 = (TP_DKG_Message*) input;
   const uint8_t *ptr = msg3->data;
@@ -850,7 +865,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 4;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -915,7 +930,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 3;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -943,7 +958,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 3;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 9232afc79e3bbb50d3e820ee288e9a52416ff080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 12/20] fix: blame the accused, not the complainer, for
 unanswered complaints

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 279cd33..b2c6d1f 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1487,7 +1487,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 64e93d3bd4cff4b282c186ff69e0f5c455192e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 13/20] fix: refuse to start with a threshold below 2

All peers refuse such an announcement anyway.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index b2c6d1f..4e303dc 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -635,7 +635,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(2>n || t<2 || t>=n || n>128) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
-- 
2.43.0


From 353e8868483b563d3244cc763d422d9665f8ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 14/20] fix: refuse a peer index larger than the number of
 peers

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 4e303dc..120f03d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -763,7 +763,7 @@ static int peer_step23_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
   }
   int ret = recv_msg(input, tpdkg_msg1_SIZE, 1, 0, msg1->to, ctx->tp_sig_pk, ctx->sessionid, ctx->ts_epsilon, &ctx->tp_last_ts);
   if(0!=ret) return 4 + ret;
-  if(msg1->to > 128 || msg1->to < 1) return 3;
+  if(msg1->to > ctx->n || msg1->to < 1) return 3;
   ctx->index=msg1->to;
 
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[%d] step 3. send msg2 containing ephemeral pubkey\e[0m\n", ctx->index);
-- 
2.43.0


From 01c8ce52ffcf3985f0942477d6c4efa20e0102b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 15/20] fix: report a peer whose long-term signature is invalid

The step failed without naming the peer at fault.
---
 src/tp-dkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 120f03d..ab7243d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -806,7 +806,10 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      if(add_cheater(ctx, 4, 64+6, i+1,0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
-- 
2.43.0


From 273259e8fa27d4b47dfdc4b33020399c8f9d5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 16/20] fix: fail the run when a peer does not acknowledge its
 share

---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index ab7243d..ae5d337 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1616,6 +1616,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(log_file!=NULL) {
         fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
-- 
2.43.0


From b19742f840e81d109760524f80b481129075c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 17/20] fix: name the culprit for every recorded violation

Invalid lengths and session ids, and invalid transcript messages were
described without naming a peer, and some descriptions did not match
the recorded error.
---
 src/tp-dkg.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index ae5d337..b9d62f8 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1700,7 +1700,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1719,26 +1719,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error>16 && c->error<=23) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error>32 && c->error<=39) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1770,9 +1770,19 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     if(c->error == 1) {
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
+    } else if(c->error>1 && c->error<=8) {
+      snprintf(out,outlen, "message containing transcript from peer %d could not be validated: %s", c->peer, tpdkg_recv_err(c->error - 1));
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
+  } else if(c->step==22) {
+    if(c->error == 1) {
+      snprintf(out,outlen, "peer %d did not acknowledge its share", c->peer);
+      return c->peer;
+    }
+    snprintf(out,outlen, "invalid error code for step 22: %d", c->error);
+    return 0;
   }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
-- 
2.43.0


From 8af9e01a00d40e0d16b828cea3881e98406b5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:14 +0000
Subject: [PATCH 18/20] fix: report the right step number for handshake
 violations

Violations in steps 6 and 8 were recorded as steps 8 and 10.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index b9d62f8..5c43374 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -881,7 +881,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
 }
 
 static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const size_t msg4s_len, uint8_t *output, const size_t output_len) {
-  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 1) * 2);
+  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 2) * 2);
   if(msg4s_len != tpdkg_msg4_SIZE * ctx->n * ctx->n) return 1;
   if(msg4s_len != output_len) return 2;
 
@@ -895,7 +895,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       } 
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
-        if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
+        if(add_cheater(ctx, 6 + (ctx->step - 2) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
         if(log_file!=NULL) {
           fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-- 
2.43.0


From f4d8b8da4a8c5d602dff13fb0102cfede4c3e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:03 +0000
Subject: [PATCH 19/20] fix: do not declare an empty variable length array for
 threshold 1

toprf_create_shares() declared an array of threshold-1 coefficients, which
is undefined behaviour for threshold 1.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index af2a26b..52cefb3 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -84,7 +84,7 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
                    uint8_t _shares[n][TOPRF_Share_BYTES]) {
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
-  uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
+  uint8_t a[threshold][crypto_core_ristretto255_SCALARBYTES]; // a[threshold-1] is unused, a VLA must not be empty for threshold 1
   int i;
   for(i=0;i<threshold-1;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
-- 
2.43.0


From 9b8d4336ae9cfbcaa326c79fc194364824f15887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:18 +0000
Subject: [PATCH 20/20] fix: end the protocol for peers not accused in a run
 with complaints

---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 5c43374..745562a 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1322,6 +1322,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // there are complaints, so this run cannot succeed: we skip to the end...
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0

