From de1e3090968e230166194abbfc9fd10c125002b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 01/15] fix: Defense::visitor_threshold returns the threshold,
 not the difficulty

---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From cd553f29ba86366d01b5b6b7cfd255ea715eb442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/15] fix: a visitor beyond u32::MAX neither wraps the count
 nor panics

---
 src/mcaptcha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..2dc73de 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -91,7 +91,7 @@ impl MCaptcha {
     /// increments the visitor count by one
     #[inline]
     pub fn add_visitor(&mut self) {
-        self.visitor_threshold += 1;
+        self.visitor_threshold = self.visitor_threshold.saturating_add(1);
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-- 
2.43.0


From 8a063dc253bc2cf79ad08732a9a89142b307f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 03/15] fix: a verification job sends exactly one verdict

---
 src/pow.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..48dfcc7 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -95,23 +95,15 @@ impl QueuedWork {
             rx,
         )
     }
+    // exactly one verdict is sent: the channel is bounded and the worker must
+    // never wait for the requester to read from it
     fn validate(&self) {
-        if !self
+        let verdict = self
             .pow
             .is_sufficient_difficulty(&self.work, self.difficulty_factor)
-        {
-            if let Err(e) = self.tx.send(false) {
-                debug!("[ERROR] unable to send work result: {e}");
-            }
-        }
-
-        if !self.pow.is_valid_proof(&self.work, &self.string) {
-            if let Err(e) = self.tx.send(false) {
-                debug!("[ERROR] unable to send work result: {e}");
-            }
-        }
+            && self.pow.is_valid_proof(&self.work, &self.string);
 
-        if let Err(e) = self.tx.send(true) {
+        if let Err(e) = self.tx.send(verdict) {
             debug!("[ERROR] unable to send work result: {e}");
         }
     }
-- 
2.43.0


From e961bb397b4f65236f5422f183017f6b7e1131e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 04/15] fix: only addresses with waiting jobs take turns and
 count as queued

---
 src/queue.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..bd4c1f9 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,12 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -114,20 +113,20 @@ impl Drop for InnerManager {
 }
 
 impl InnerManager {
+    // hands a job of the address whose turn it is to the runner; only addresses
+    // with waiting jobs take turns
     fn dispatch_to(&mut self, name: usize) {
         if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
+            if let Some(ip) = self.ips.pop_front() {
+                let ip_queue = self.queues.get_mut(&ip).unwrap();
+                if let Some(work) = ip_queue.pop_front() {
+                    r.tx.send(Message::Prove(work)).unwrap();
+                }
+                if ip_queue.is_empty() {
+                    self.queues.remove(&ip);
+                } else {
+                    self.ips.push_back(ip);
+                }
             }
         }
     }
@@ -148,31 +147,30 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
 
     pub fn schedule(&mut self, ip: String, job: Box<dyn Runnable>) -> CaptchaResult<()> {
-        if self.queues.len() == self.queue_length {
-            return Err(CaptchaError::QueueFull);
-        }
         if let Some(queue) = self.queues.get_mut(&ip) {
             queue.push_back(job);
             self.dispatch();
             return Ok(());
         }
+        if self.queues.len() == self.queue_length {
+            return Err(CaptchaError::QueueFull);
+        }
 
         let mut queue = VecDeque::with_capacity(1);
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From 1d99db877d3a020fae611bfe4200e96a72aa2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 05/15] fix: only idle runners are given queued work

---
 src/queue.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index bd4c1f9..30b1bf2 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -35,6 +35,7 @@ enum Message {
 struct RunnerThread {
     tx: Sender<Message>,
     thread: Option<JoinHandle<()>>,
+    busy: bool,
 }
 
 pub trait Runnable: Send + Sync {
@@ -46,7 +47,11 @@ impl RunnerThread {
         let (tx, rx) = crossbeam_channel::unbounded();
 
         let thread = Some(thread::spawn(move || Self::run(name, &rx, &tx_manager)));
-        Self { tx, thread }
+        Self {
+            tx,
+            thread,
+            busy: false,
+        }
     }
 
     fn run(name: usize, rx: &Receiver<Message>, tx_manager: &Sender<InnerManagerMessage>) {
@@ -114,13 +119,18 @@ impl Drop for InnerManager {
 
 impl InnerManager {
     // hands a job of the address whose turn it is to the runner; only addresses
-    // with waiting jobs take turns
+    // with waiting jobs take turns and only idle runners are given work, so that
+    // a job is bound to a runner no earlier than it can be run
     fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
+        if let Some(r) = self.runners.get_mut(&name) {
+            if r.busy {
+                return;
+            }
             if let Some(ip) = self.ips.pop_front() {
                 let ip_queue = self.queues.get_mut(&ip).unwrap();
                 if let Some(work) = ip_queue.pop_front() {
                     r.tx.send(Message::Prove(work)).unwrap();
+                    r.busy = true;
                 }
                 if ip_queue.is_empty() {
                     self.queues.remove(&ip);
@@ -183,7 +193,12 @@ impl InnerManager {
                         drop(im);
                         break;
                     }
-                    InnerManagerMessage::Dispatch(name) => im.dispatch_to(name),
+                    InnerManagerMessage::Dispatch(name) => {
+                        if let Some(r) = im.runners.get_mut(&name) {
+                            r.busy = false;
+                        }
+                        im.dispatch_to(name)
+                    }
                     InnerManagerMessage::Schedule(job) => {
                         let res = im.schedule(job.ip, job.job);
                         let _ = job.tx.send(res);
-- 
2.43.0


From cdc10419a82d561a9f6590a3e2e983ffffcb71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 06/15] fix: a renamed site stays marked as used, so that it is
 cleaned up when idle

---
 src/master/embedded/master.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..d8fd4ec 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -80,8 +80,8 @@ impl Master {
     pub fn rename(&mut self, msg: Rename) {
         // If actor isn't present, it's okay to not throw an error
         // since actors are lazyily initialized and are cleaned up when inactive
-        if let Some((_, counter)) = self.sites.remove(&msg.name) {
-            self.add_site(counter, msg.rename_to);
+        if let Some(site) = self.sites.remove(&msg.name) {
+            self.sites.insert(msg.rename_to, site);
         }
     }
 }
-- 
2.43.0


From 93844df75ace8f0800d2dc6482c64fff6aaa599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 07/15] fix: clean-up survives concurrent changes and drops
 only idle counters

---
 src/master/embedded/counter.rs | 18 ++++++++++++++++++
 src/master/embedded/master.rs  | 29 ++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..74cff55 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -168,6 +168,24 @@ impl Handler<Stop> for Counter {
     }
 }
 
+/// Message to stop [Counter] if no visitor is counted at the moment.
+/// Returns true if it was stopped
+#[derive(Message)]
+#[rtype(result = "bool")]
+pub struct StopIfIdle;
+
+impl Handler<StopIfIdle> for Counter {
+    type Result = bool;
+
+    fn handle(&mut self, _: StopIfIdle, ctx: &mut Self::Context) -> Self::Result {
+        let idle = self.0.get_visitors() == 0;
+        if idle {
+            ctx.stop();
+        }
+        idle
+    }
+}
+
 /// Gets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "MCaptcha")]
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index d8fd4ec..3049a56 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -32,7 +32,7 @@ use crate::master::messages::{
 };
 use crate::master::Master as MasterTrait;
 
-use super::counter::{GetCurrentVisitorCount, Stop};
+use super::counter::{Stop, StopIfIdle};
 
 /// This Actor manages the [Counter] actors.
 /// A service can have several [Counter] actors with
@@ -170,12 +170,14 @@ impl Handler<CleanUp> for Master {
         let master = ctx.address();
         info!("init master actor cleanup up");
         let task = async move {
-            for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
-                println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
+            for (new, addr) in sites.values() {
+                if new.is_none() {
+                    continue;
+                }
+                // the counter itself decides and stops in one go, so no visitor gets lost
+                // in between; an error means that it has been stopped already
+                if addr.send(StopIfIdle).await.unwrap_or(true) {
+                    let _ = master.send(RemoveCounter(addr.clone())).await;
                     println!("cleaned up");
                 }
             }
@@ -190,6 +192,19 @@ impl Handler<CleanUp> for Master {
     }
 }
 
+/// Message to forget a stopped [Counter], whatever its name is by now
+#[derive(Message)]
+#[rtype(result = "()")]
+struct RemoveCounter(Addr<Counter>);
+
+impl Handler<RemoveCounter> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: RemoveCounter, _ctx: &mut Self::Context) -> Self::Result {
+        self.sites.retain(|_, (_, addr)| *addr != m.0);
+    }
+}
+
 impl Handler<RemoveCaptcha> for Master {
     type Result = MessageResult<RemoveCaptcha>;
 
-- 
2.43.0


From 4c9023c441f3e2ebb6f61968bc57c22cbf247042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 08/15] fix: restored visitors are released once, also on sites
 that did not exist

---
 src/master/embedded/counter.rs | 57 +++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index 74cff55..3ecdf84 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -91,16 +91,47 @@ use crate::mcaptcha::MCaptcha;
 
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
+///
+/// The second field counts the restorations of internal data: releases scheduled before the
+/// latest one are void
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(MCaptcha, #[serde(skip)] u64);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
 impl Actor for Counter {
     type Context = Context<Self>;
+
+    fn started(&mut self, ctx: &mut Self::Context) {
+        self.release_restored(ctx);
+    }
+}
+
+impl Counter {
+    // visitors that weren't added by AddVisitor are released in bulk
+    fn release_restored(&mut self, ctx: &mut Context<Self>) {
+        let count = self.0.get_visitors();
+        if count == 0 {
+            return;
+        }
+        let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let epoch = self.1;
+        let wait_for = async move {
+            sleep(duration).await;
+            //delay_for(duration).await;
+        }
+        .into_actor(self)
+        .map(move |_, act, ctx| {
+            if act.1 == epoch {
+                act.handle(BulkDecrement(count), ctx);
+            }
+        });
+        ctx.spawn(wait_for);
+    }
 }
 
 /// Message to decrement the visitor count
@@ -125,16 +156,20 @@ impl Handler<AddVisitor> for Counter {
     type Result = MessageResult<AddVisitor>;
 
     fn handle(&mut self, _: AddVisitor, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let epoch = self.1;
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
         }
-        .into_actor(self);
+        .into_actor(self)
+        .map(move |_, act, ctx| {
+            if act.1 == epoch {
+                act.handle(DeleteVisitor, ctx);
+            }
+        });
         ctx.spawn(wait_for);
 
         self.0.add_visitor();
@@ -220,17 +255,9 @@ impl Handler<SetInternalData> for Counter {
     type Result = MessageResult<SetInternalData>;
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         self.0 = d.0;
-        let duration: Duration = Duration::new(self.0.get_duration(), 0);
-        let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
-            //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
-        ctx.spawn(wait_for);
+        self.1 += 1;
+        self.release_restored(ctx);
 
         MessageResult(())
     }
-- 
2.43.0


From d65a2b72cefad32848aca9f5f11e4a8d8fe9a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 09/15] fix: RedisCache survives requesters that went away

---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From c9e875d8543bf27ea32b926ab45b09b70c183903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 10/15] fix: Redis errors and malformed replies fail the
 request, not the process

---
 src/redis/mcaptcha_redis.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..ca0a447 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,14 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// decode a reply of the mCaptcha Redis module
+fn parse_reply(reply: &str) -> CaptchaResult<AddVisitorResult> {
+    serde_json::from_str(reply).map_err(|e| {
+        log::error!("mCaptcha redis module sent a malformed reply: {}", e);
+        CaptchaError::MCaptchaRedisModuleError
+    })
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -117,8 +125,7 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
-        Ok(Some(res))
+        Ok(Some(parse_reply(&res)?))
     }
 
     /// Register new mCaptcha with Redis
@@ -188,7 +195,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        parse_reply(&challege)
     }
 
     /// Delete PoW Challenge object from Redis
@@ -207,21 +214,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From df2e380aa376d90d2807af9c678f0f76755dd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 11/15] fix: tokens of different sites never share a Redis key

---
 src/redis/mcaptcha_redis.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index ca0a447..4166b7f 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,14 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Redis key under which the PoW token of an mCaptcha is stored
+///
+/// The length of the mCaptcha's name keeps keys of different (mCaptcha, token)
+/// pairs apart when either of them contains the separator
+fn token_key(captcha: &str, token: &str) -> String {
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 /// decode a reply of the mCaptcha Redis module
 fn parse_reply(reply: &str) -> CaptchaResult<AddVisitorResult> {
     serde_json::from_str(reply).map_err(|e| {
@@ -214,8 +222,7 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -230,8 +237,7 @@ impl MCaptchaRedisConnection {
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -243,8 +249,7 @@ impl MCaptchaRedisConnection {
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From 32f2b3c3cb7469ec4169dc3a73df0b15a25e8b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 12/15] fix: look for the mCaptcha module among all loaded
 Redis modules

---
 src/redis/mcaptcha_redis.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 4166b7f..8a86cd1 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,26 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// is an entry of `MODULE LIST` the mCaptcha Redis module? Depending on the
+/// protocol version, entries are maps or lists of alternating fields and values
+fn is_mcaptcha_module(module: &Value) -> bool {
+    let is = |value: &Value, expected: &str| match value {
+        Value::BulkString(s) => s.as_slice() == expected.as_bytes(),
+        Value::SimpleString(s) => s == expected,
+        _ => false,
+    };
+
+    match module {
+        Value::Array(fields) => fields
+            .chunks_exact(2)
+            .any(|f| is(&f[0], "name") && is(&f[1], MODULE_NAME)),
+        Value::Map(fields) => fields
+            .iter()
+            .any(|(k, v)| is(k, "name") && is(v, MODULE_NAME)),
+        _ => false,
+    }
+}
+
 /// Redis key under which the PoW token of an mCaptcha is stored
 ///
 /// The length of the mCaptcha's name keeps keys of different (mCaptcha, token)
@@ -85,15 +105,9 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
-            }
+        match self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
+            Value::Array(modules) if modules.iter().any(is_mcaptcha_module) => (),
+            _ => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
         }
 
         let commands = vec![
@@ -112,8 +126,7 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
-- 
2.43.0


From 80d61154296631b573d956e8acd978f50ce4d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 13/15] fix: a Redis server that can't be reached is an error,
 not a panic

---
 src/redis/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..765bf95 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -38,19 +38,20 @@ pub enum RedisConfig {
 
 impl RedisConfig {
     /// Create Redis connection
+    ///
+    /// Panics if the connection can't be established
     pub async fn connect(&self) -> RedisClient {
-        match self {
+        self.try_connect().await.unwrap()
+    }
+
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
+        let client = match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                RedisClient::Single(ConnectionManager::new(Client::open(url.as_str())?).await?)
             }
-            Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
-            }
-        }
+            Self::Cluster(nodes) => RedisClient::Cluster(ClusterClient::new(nodes.to_owned())?),
+        };
+        Ok(client)
     }
 }
 
@@ -122,7 +123,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From 7b418b12d97e32eb69410e03f3e2c3636f34390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 14/15] fix: refuse Redis replies with a difficulty of zero

---
 src/redis/mcaptcha_redis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 8a86cd1..e3303d6 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -77,10 +77,16 @@ fn token_key(captcha: &str, token: &str) -> String {
 
 /// decode a reply of the mCaptcha Redis module
 fn parse_reply(reply: &str) -> CaptchaResult<AddVisitorResult> {
-    serde_json::from_str(reply).map_err(|e| {
+    let reply: AddVisitorResult = serde_json::from_str(reply).map_err(|e| {
         log::error!("mCaptcha redis module sent a malformed reply: {}", e);
         CaptchaError::MCaptchaRedisModuleError
-    })
+    })?;
+    // no level has a difficulty of zero and work can't be judged by it
+    if reply.difficulty_factor == 0 {
+        log::error!("mCaptcha redis module sent a difficulty factor of zero");
+        return Err(CaptchaError::MCaptchaRedisModuleError);
+    }
+    Ok(reply)
 }
 
 impl MCaptchaRedis {
-- 
2.43.0


From 6b1dd5abdf5edd1c64c4c096bd727fd1659cea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 15/15] fix: don't lose imported data of a site whose counter
 has been stopped

---
 src/master/embedded/master.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 3049a56..ced2606 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -290,10 +290,12 @@ impl Handler<SetInternalData> for Master {
                         master.send(AddSite { id: name, mcaptcha }).await.unwrap();
                     }
                     Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
+                        let msg = super::counter::SetInternalData(mcaptcha.clone());
+                        // a counter that has been stopped, by a clean-up for instance, can't
+                        // take the data: the site starts anew
+                        if addr.send(msg).await.is_err() {
+                            let _ = master.send(AddSite { id: name, mcaptcha }).await;
+                        }
                     }
                 }
             }
-- 
2.43.0

