From 8ddaf6b82eae87a3ffedcd2f9555067c0ff38c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 01/13] hook: small initial map capacity under --cfg vsim
 (simulation builds only)

---
 src/store/transaction_store_backend.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/store/transaction_store_backend.rs b/src/store/transaction_store_backend.rs
index 88b5bb8..dd20839 100644
--- a/src/store/transaction_store_backend.rs
+++ b/src/store/transaction_store_backend.rs
@@ -19,9 +19,12 @@ impl IndexedTransactionStoreBackend {
     }
 
     pub fn large() -> Self {
+        // Under simulation (--cfg vsim) only the initial capacity differs, so that a process starts in milliseconds.
+        #[allow(unexpected_cfgs)]
+        let (txo_capacity, address_capacity) = if cfg!(vsim) { (1_000, 500) } else { (100_000_000, 50_000_000) };
         Self {
-            unspent_txo_address_map: TransactionOutputHashMap::with_capacity(100_000_000),
-            address_unspent_txos_map: AddressHashMap::with_capacity(50_000_000),
+            unspent_txo_address_map: TransactionOutputHashMap::with_capacity(txo_capacity),
+            address_unspent_txos_map: AddressHashMap::with_capacity(address_capacity),
         }
     }
 
-- 
2.43.0


From f9344d75f77f998c491b4fb955d096d5e6238038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 02/13] fix: write the store file atomically and durably

The store was overwritten in place, so a crash, a power loss or a full disk while
writing left a torn file that could not be loaded (or loaded as garbage) at the
next start.
---
 src/store/store.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..7e61066 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{fs::File, io::Write, path::Path};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -62,6 +63,20 @@ fn process_blocks(store: &mut Store<impl TransactionStoreBackendTrait>, blocks:
     }
 }
 
+// Replaces the content of a file in a way that leaves either the previous or the new content in place, whatever interrupts it.
+fn replace_file(path: &str, buffer: &[u8]) -> std::io::Result<()> {
+    let temporary_path = format!("{}.tmp", path);
+    let mut file = File::create(&temporary_path)?;
+    file.write_all(buffer)?;
+    file.sync_all()?;
+    std::fs::rename(&temporary_path, path)?;
+    let directory = match Path::new(path).parent() {
+        Some(directory) if directory != Path::new("") => directory,
+        _ => Path::new("."),
+    };
+    File::open(directory)?.sync_all()
+}
+
 impl IndexedStore {
     pub fn from_blocks<T: 'static + BlockTrait + Clone + Send + Sync>(
         blocks: Vec<T>,
@@ -140,7 +155,7 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        replace_file(path, &writer.buffer()).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 56724b7b5d29a8aa63f01bf1868c08811904c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 03/13] fix: do not panic when the system clock is set back

The chronometer is only used for log messages.
---
 src/chronometer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..e14896d 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -11,7 +11,7 @@ impl Chronometer {
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
-- 
2.43.0


From 870d9a9daddcc1847735e430acd67dd219bd231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 04/13] fix: hold the mutex while the store is being written to
 file

`let _ =` dropped the guard at once, so an update computed during the write of a
snapshot went on to wait for the store while it kept the augmentations locked,
and no query was answered until the snapshot was written. With the guard held,
such updates leave the confirmed blocks in the tail, and the first update after
the write moves them to the store.
---
 src/state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..3a4b40a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -38,7 +38,8 @@ impl State {
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
-        if tail_blocks.update_blocks(&store, &self.client, logger).await {
+        let updated = tail_blocks.update_blocks(&store, &self.client, logger).await;
+        if updated || (update_store && tail_blocks.len() > self.confirmations) {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
@@ -53,7 +54,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -164,7 +165,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 35223239aee9092e6ba12066949cc905e3ba3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 05/13] fix: compute all augmentations at the first update

With CONFIRMATIONS=1 the store can already contain every block of the chain, in
which case the first update found no new block and tried to replace the last of
no augmentations.
---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 3a4b40a..0543073 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -35,11 +35,12 @@ impl State {
     }
 
     async fn compute_update(&self, update_store: bool, logger: &Logger) -> Update {
+        let initialized = !self.augmentations.read().await.is_empty();
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
         let updated = tail_blocks.update_blocks(&store, &self.client, logger).await;
-        if updated || (update_store && tail_blocks.len() > self.confirmations) {
+        if updated || !initialized || (update_store && tail_blocks.len() > self.confirmations) {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
-- 
2.43.0


From ba70e14d405ae9bba6eee020c11fb3704dc8f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 06/13] fix: propagate the panic of a thread pool worker

The outputs of a worker that panicked were silently missing: an unreadable block
file or block led to a partial index, which was then written to the store file.
---
 src/thread_pool.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..c6b6696 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -1,13 +1,15 @@
 use std::{
+    panic::resume_unwind,
     sync::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    handles: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +26,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut handles = Vec::new();
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            handles.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +42,12 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self { output_receiver, handles }
     }
 }
 
@@ -52,6 +55,16 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        match self.output_receiver.recv() {
+            Ok(output) => Some(output),
+            Err(_) => {
+                for handle in self.handles.drain(..) {
+                    if let Err(error) = handle.join() {
+                        resume_unwind(error);
+                    }
+                }
+                None
+            }
+        }
     }
 }
-- 
2.43.0


From c26eb2ffeb11f84f52d8a47282c0e70a98b33bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 07/13] fix: ignore duplicate blocks in the block files

Block files can contain the same block more than once. Each duplicate doubled the
number of heads to follow, which takes exponential time and memory.
---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..fd22182 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 17011872756369007b35ffc6a330439ca649b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 08/13] fix: handle short reads and short zero padding in block
 files

A read may return less than 88 bytes or be interrupted, and the zero padding at
the end of a block file can be shorter than 88 bytes.
---
 src/block_file_reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index fd22182..3027247 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -35,6 +35,20 @@ impl BlockTrait for FileBlock {
     }
 }
 
+// Fills the buffer, unless the end of the file is reached first.
+fn read_up_to(file: &mut File, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut bytes = 0;
+    while bytes < buffer.len() {
+        match file.read(&mut buffer[bytes..]) {
+            Ok(0) => break,
+            Ok(count) => bytes += count,
+            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(error) => return Err(error),
+        }
+    }
+    Ok(bytes)
+}
+
 #[derive(Debug, Clone)]
 pub struct BlockFileReader {
     path: String,
@@ -114,8 +128,8 @@ impl BlockFileReader {
         let mut offset = 0;
         let mut blocks = Vec::new();
         loop {
-            let bytes = file.read(&mut buffer).unwrap();
-            if bytes == 0 {
+            let bytes = read_up_to(&mut file, &mut buffer).unwrap();
+            if buffer[..bytes].iter().all(|&byte| byte == 0) {
                 break;
             }
             assert!(bytes == 88);
-- 
2.43.0


From 99efa179ca537b9e1053ed18f84b1b9860c04936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 09/13] fix: fail when a runtime cannot be created

The thread ended without reporting a result, so the process went on without the
updates, the snapshots or the server, or ended with status 0.
---
 src/executor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/executor.rs b/src/executor.rs
index 22c85d1..ec00803 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -1,5 +1,6 @@
 use std::{
     future::Future,
+    panic::{catch_unwind, AssertUnwindSafe},
     sync::mpsc::{channel, Receiver, Sender},
     thread::{spawn, Result},
 };
@@ -24,8 +25,7 @@ impl Executor {
     {
         let sender = self.sender.clone();
         spawn(move || {
-            let runtime = Runtime::new().unwrap();
-            let result = spawn(move || runtime.block_on(f(state))).join();
+            let result = catch_unwind(AssertUnwindSafe(move || Runtime::new().unwrap().block_on(f(state))));
             #[allow(unused_must_use)]
             {
                 sender.send(result);
-- 
2.43.0


From dfc6a1ff05f7cb61518ac05dff5cff82d12dbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 10/13] fix: do not replace a store file that cannot be read

Any error while reading the store file (an I/O error, no file descriptors, missing
permissions) was taken for a missing file: the index was built again from the block
files, or from whatever is left of them, and written over the existing store.
---
 src/store/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 7e61066..24ca705 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -122,7 +122,8 @@ impl IndexedStore {
                 let mut reader = HashingBufferReader::new(&buffer);
                 Some(Self::from_reader(&mut reader, logger))
             }
-            Err(_) => None,
+            Err(error) if error.kind() == std::io::ErrorKind::NotFound => None,
+            Err(error) => panic!("Could not read store file {}: {}", path, error),
         };
         logger.log("reading store from file done!");
         store
-- 
2.43.0


From ebd54327e9b05d3849befd9a737b2891db3cc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 11/13] fix: reject settings that are not valid Unicode instead
 of applying the default

---
 src/configuration.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..197d313 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -19,6 +19,7 @@ pub struct Configuration {
 fn var(key: &str, default: Option<String>) -> Result<String, String> {
     match env::var(key) {
         Ok(value) => Ok(value),
+        Err(env::VarError::NotUnicode(value)) => Err(format!("Invalid {} {:?}", key, value)),
         Err(_) => default.ok_or(format!("Missing {}", key)),
     }
 }
@@ -26,6 +27,7 @@ fn var(key: &str, default: Option<String>) -> Result<String, String> {
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
     match var(key, None) {
         Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
+        Err(err) if env::var_os(key).is_some() => Err(err),
         Err(err) => default.ok_or(err),
     }
 }
-- 
2.43.0


From c5a0bd713b47a40886d7e6567869b3858325d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 12/13] fix: a query parameter no longer replaces the address
 in the path

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 3adfe3eee60cc992934f01c3af28c4002dbb8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 13/13] fix: an RPC request without an answer for ten minutes
 ends the process instead of stalling it forever

---
 src/client.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..2cab041 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,12 @@
 use crate::{base64, hex, reverse_hex, Logger, Transaction};
 use hyper::body::HttpBody;
 use serde_json::{json, Value};
-use std::{str, error, fmt};
+use std::{str, error, fmt, time::Duration};
 use serde::{Deserialize, Serialize};
 
+// A node that takes longer than this to answer is considered lost.
+const TIMEOUT: Duration = Duration::from_secs(600);
+
 #[derive(Clone)]
 pub struct Client {
     uri: String,
@@ -36,6 +39,10 @@ impl Client {
     }
 
     async fn request(&self, method: &str, params: Vec<Value>, logger: &Logger) -> Result<Value, Error> {
+        tokio::time::timeout(TIMEOUT, self.exchange(method, params, logger)).await.unwrap()
+    }
+
+    async fn exchange(&self, method: &str, params: Vec<Value>, logger: &Logger) -> Result<Value, Error> {
         logger.log(format!("{} {}", method, json!(params).to_string()));
         let request = hyper::Request::builder()
             .method(hyper::Method::POST)
-- 
2.43.0

