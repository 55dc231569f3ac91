From e285685b39fd876951281956bf6b2862f6724cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:14 +0000
Subject: [PATCH] fix: keep chunk size and trace carrier when a submission
 completes or fails

The rows moved to submissions_completed / submissions_failed dropped both
columns, so the status of a finished submission reported a default chunk
size and an empty trace carrier.
---
 opsqueue/src/common/submission.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opsqueue/src/common/submission.rs b/opsqueue/src/common/submission.rs
index c36efe0..a87b7eb 100644
--- a/opsqueue/src/common/submission.rs
+++ b/opsqueue/src/common/submission.rs
@@ -943,8 +943,8 @@ pub mod db {
     SAVEPOINT complete_submission_raw;
 
     INSERT INTO submissions_completed
-    (id, chunks_total, prefix, metadata, completed_at)
-    SELECT id, chunks_total, prefix, metadata, julianday($1) FROM submissions WHERE id = $2;
+    (id, chunks_total, prefix, metadata, completed_at, otel_trace_carrier, chunk_size)
+    SELECT id, chunks_total, prefix, metadata, julianday($1), otel_trace_carrier, chunk_size FROM submissions WHERE id = $2;
 
     DELETE FROM submissions WHERE id = $3 RETURNING *;
 
@@ -979,8 +979,8 @@ pub mod db {
         query!(
             "
     INSERT INTO submissions_failed
-    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id)
-    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2 FROM submissions WHERE id = $3;
+    (id, chunks_total, chunks_done, prefix, metadata, failed_at, failed_chunk_id, otel_trace_carrier, chunk_size)
+    SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, otel_trace_carrier, chunk_size FROM submissions WHERE id = $3;
 
     DELETE FROM submissions WHERE id = $4 RETURNING *;
     ",
-- 
2.43.0

