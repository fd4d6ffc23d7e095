From 9d2d66225a2e49e0ee2f546ee14643f9ddf62499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 01/17] fix: inserting frames before existing frames lost or
 reordered them

---
 src/frame_cursor.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..f117898 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -562,14 +562,11 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
         vec.reserve(slice.len() - spare_capacity);
     }
 
-    let old_len = vec.len();
     let new_len = vec.len() + slice.len();
     vec.resize_with(new_len, T::default);
 
-    // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
-    }
+    // Move the existing items after `index` to the end
+    vec[index..].rotate_right(slice.len());
 
     // Clone the slice into the new area
     for (i, item) in slice.iter().enumerate() {
-- 
2.43.0


From b0ea05dbb9b688a67cf80e91c9ac6f3b9754a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 02/17] fix: removing all frames left the frame cursor out of
 bounds

---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index f117898..99e8639 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From b53d167fd75d6c0528249d7c1160e5d56181122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 03/17] fix: removing a frame past the last frame reported
 success

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 99e8639..ad51e0d 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From 392d1c22ec406a1b474d1fa18ccfe5889c31a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 04/17] fix: inserting frames from an iterator with a large
 size hint panicked

---
 src/frame_cursor.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index ad51e0d..716dc23 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -317,12 +317,14 @@ impl<'bvh> FrameCursor<'bvh> {
     {
         let frames = frames.into_iter();
         let num_channels = self.num_channels();
-        let num_frames = {
-            let (low, up) = frames.size_hint();
-            up.unwrap_or(low)
-        };
+        let (num_frames, _) = frames.size_hint();
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The size hint may exceed the number of frames which can be inserted, so
+        // failing to reserve space for all of them is not an error.
+        let _ = self
+            .bvh
+            .motion_values
+            .try_reserve(num_frames.saturating_mul(num_channels));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From 24ba5f6d3ad7cff7214f15720f0e9931dbcbb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:08 +0000
Subject: [PATCH 05/17] fix: iterating over the children of a joint always
 panicked

---
 src/joint.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..60d81a8 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -392,6 +392,7 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
+    /// Index of the parent `Joint`, if only its children are iterated over.
     pub(crate) from_child: Option<usize>,
 }
 
@@ -421,27 +422,25 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            current_joint: Joints::next_child(joint.joints, joint.index, 0),
+            from_child: Some(joint.index),
         }
     }
 
+    /// Returns the index of the first child of the joint at index `parent` which is not
+    /// before the index `from`, or the number of joints if there is no such child.
+    fn next_child(joints: &[JointData], parent: usize, from: usize) -> usize {
+        joints
+            .iter()
+            .skip(from)
+            .position(|jd| jd.parent_index() == Some(parent))
+            .map(|position| from + position)
+            .unwrap_or(joints.len())
+    }
+
     /// Finds the `Joint` named `joint_name`, or `None` if it doesn't exist.
     #[inline]
     pub fn find_by_name<B>(&mut self, joint_name: &B) -> Option<Joint<'a>>
@@ -471,10 +470,9 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
+        self.current_joint += 1;
+        if let Some(parent) = self.from_child {
+            self.current_joint = Joints::next_child(self.joints, parent, self.current_joint);
         }
 
         joint
-- 
2.43.0


From 939e95a08a8a73e2c6acaa9b432bd762681c8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 06/17] fix: the mutable joints iterator never yielded a joint

---
 src/joint.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 60d81a8..d6c954a 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -502,7 +502,13 @@ impl<'a> Iterator for JointsMut<'a> {
     type Item = JointMut<'a>;
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        None
+        let (joint, rest) = mem::take(&mut self.joints).split_first_mut()?;
+        self.joints = rest;
+
+        let index = self.current_joint;
+        self.current_joint += 1;
+
+        Some(JointMut { index, joint })
     }
 }
 
@@ -812,8 +818,8 @@ impl fmt::Debug for Joint<'_> {
 pub struct JointMut<'a> {
     /// Index of the `Joint` in the skeleton.
     pub(crate) index: usize,
-    /// `Joints` array which the joint is part of.
-    pub(crate) joints: &'a mut [JointData],
+    /// The data of the joint.
+    pub(crate) joint: &'a mut JointData,
 }
 
 impl<'a> JointMut<'a> {
@@ -845,6 +851,6 @@ impl<'a> JointMut<'a> {
     /// Mutable access to the internal data of the `JointMut`.
     #[inline]
     pub(crate) fn data_mut(&mut self) -> &mut JointData {
-        &mut self.joints[self.index]
+        self.joint
     }
 }
-- 
2.43.0


From 6f3e594cd5c6123e34a8d44f6f3e80816c74614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 07/17] fix: an end site of the root joint replaced the root's
 offset

---
 src/joint.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index d6c954a..e8a885f 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// End site offset.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -78,11 +80,14 @@ impl JointData {
     #[inline]
     pub(crate) const fn end_site(&self) -> Option<&Offset> {
         match *self {
-            JointData::Child {
+            JointData::Root {
+                ref end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref end_site_offset,
                 ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 011c08a2d6e89ebfcd053ae9866c7861e2ccce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 08/17] fix: braces of joints without an end site, or with an
 end site and children, were not written correctly

---
 src/write.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..e68bfa5 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -267,27 +267,27 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            // If the next joint is a child of the previous joint, then there
+                            // are no blocks to close.
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    (curr_depth, prev_joint.data().depth().checked_sub(curr_depth))
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference =
+                                    depth_difference.and_then(|d| d.checked_sub(1));
                             }
                             *wrote_name = false;
                             *wrote_offset = false;
-- 
2.43.0


From 9ae08137adec6329c3a4857138db6a2a3bb33488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 09/17] fix: writing failed if the writer accepted part of the
 data or was interrupted

---
 src/write.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index e68bfa5..e3c670a 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,11 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
             let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(bytes)?;
         }
         writer.flush()
     }
-- 
2.43.0


From 6f77f17bcd030c1870ff79e081d30e48a9a97ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 10/17] fix: loading panicked if the frame time was negative or
 not representable

---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..2464766 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -575,7 +575,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From 815f8555f66fbe79a8b3f3f9f646bb3dfac7e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 11/17] fix: a missing frame time value was reported as missing
 number of frames

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2464766..10d4b59 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -592,7 +592,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From 6f454faf74613cd008ea77e47827f0d51211795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 12/17] fix: loading panicked or ran out of memory if a huge
 number of channels or frames was declared

---
 src/parse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 10d4b59..e31d0bf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -430,7 +430,6 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
@@ -599,9 +598,7 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
-
-        self.motion_values.reserve(expected_total_motion_values);
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
 
         for (line_num, line) in lines {
             let line = line?;
@@ -617,7 +614,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From 3f1ff4f3a2f9484858a031e7c22e1551f05487c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:34 +0000
Subject: [PATCH 13/17] fix: bvh literals with joints of 4, 5 or 7 channels did
 not compile

---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0


From 842ab92d06e4b2d99ebd8e31cec2ecd4fbd2b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 14/17] fix: joint names were cut off at the first colon

---
 src/parse.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e31d0bf..daa28de 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -284,11 +284,25 @@ impl Bvh {
                 .unwrap_or(0)
         }
 
+        #[inline]
+        fn is_separator(c: char) -> bool {
+            c.is_ascii_whitespace() || c == ':'
+        }
+
+        /// Names may contain colons, so they only end at whitespace.
+        #[inline]
+        fn joint_name<'a>(line: &'a [u8], keyword: &[u8]) -> Option<&'a [u8]> {
+            line.trim_start_with(is_separator)[keyword.len()..]
+                .trim_start_with(is_separator)
+                .fields_with(|c| c.is_ascii_whitespace())
+                .next()
+        }
+
         for (line_num, line) in lines {
             let line = line?;
             let line = line.trim();
 
-            let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
+            let mut tokens = line.fields_with(is_separator);
 
             let first_token = match tokens.next() {
                 Some(tok) => tok,
@@ -310,7 +324,7 @@ impl Bvh {
                         panic!("Unexpected root: {:?}", curr_mode);
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
                         panic!("Missing root name!");
@@ -373,7 +387,7 @@ impl Bvh {
                         pushed_end_site_joint = false;
                     }
 
-                    if let Some(mut name) = tokens.next() {
+                    if let Some(name) = joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
                         panic!("Missing joint name!");
-- 
2.43.0


From 7667b6597f9a901cebcc7f69761169312eb9e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 15/17] fix: leaf joints without an end site were lost or
 misplaced in the hierarchy

---
 src/parse.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index daa28de..6e96e1e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -340,22 +340,29 @@ impl Bvh {
                         curr_mode = ParseMode::Finished;
                     }
 
-                    if in_end_site {
+                    if !pushed_end_site_joint {
+                        // Either the end site of the joint or the joint itself was closed.
+                        let joint_depth = if in_end_site {
+                            curr_depth
+                        } else {
+                            curr_depth + 1
+                        };
+
                         if let JointData::Child {
                             ref mut private, ..
                         } = curr_joint
                         {
                             private.self_index = curr_index;
-                            private.parent_index = get_parent_index(&joints, curr_depth);
-                            private.depth = curr_depth - 1;
+                            private.parent_index = get_parent_index(&joints, joint_depth);
+                            private.depth = joint_depth - 1;
                         }
 
                         let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
                         joints.push(new_joint);
                         curr_index += 1;
-                        in_end_site = false;
                         pushed_end_site_joint = true;
                     }
+                    in_end_site = false;
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
-- 
2.43.0


From db6f5b69e0745dacdd334f8dc61bfdc97844f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 16/17] fix: loading panicked or built an inconsistent skeleton
 if statements of the hierarchy were misplaced

---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 45 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..89e0655 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -101,6 +101,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A keyword or a brace was encountered in the wrong location.
+    UnexpectedKeyword {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A `CHANNELS` section was encountered in the wrong location.
     UnexpectedChannelsSection {
         /// Line number in the source bvh where the error occurred.
@@ -150,6 +155,7 @@ impl LoadJointsError {
     pub fn line(&self) -> Option<usize> {
         match *self {
             LoadJointsError::MissingJointName { line }
+            | LoadJointsError::UnexpectedKeyword { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -177,6 +183,9 @@ impl fmt::Display for LoadJointsError {
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
+            LoadJointsError::UnexpectedKeyword { line } => {
+                write!(f, "{}: unexpectedly encountered a keyword or brace", line)
+            }
             LoadJointsError::UnexpectedChannelsSection { line } => write!(
                 f,
                 "{}: unexpectedly encountered a \"CHANNELS\" section",
diff --git a/src/parse.rs b/src/parse.rs
index 6e96e1e..754a0eb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -261,6 +260,7 @@ impl Bvh {
             OpeningBrace,
             ClosingBrace,
             JointName,
+            JointMember,
             RootName,
         }
 
@@ -272,7 +272,9 @@ impl Bvh {
 
         let mut curr_joint = JointData::empty_root();
         let mut in_end_site = false;
+        // `true` if there is no joint being read, because the last one is already in `joints`.
         let mut pushed_end_site_joint = false;
+        let mut has_channels = false;
 
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
@@ -312,7 +314,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -321,19 +323,27 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if let Some(name) = joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
                     curr_depth += 1;
+                    next_expected_line = NextExpectedLine::JointMember;
                 }
                 CLOSE_BRACE => {
+                    if next_expected_line != NextExpectedLine::JointMember {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -365,15 +375,20 @@ impl Bvh {
                     in_end_site = false;
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-                    if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
+                    if next_expected_line == NextExpectedLine::JointMember
+                        && !in_end_site
+                        && !pushed_end_site_joint
+                        && tokens.next() == Some(ENDSITE_KEYWORDS[1])
+                    {
                         in_end_site = true;
+                        next_expected_line = NextExpectedLine::OpeningBrace;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                    if next_expected_line != NextExpectedLine::JointMember || in_end_site {
+                        return Err(LoadJointsError::UnexpectedKeyword { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -393,15 +408,18 @@ impl Bvh {
                     } else {
                         pushed_end_site_joint = false;
                     }
+                    has_channels = false;
 
                     if let Some(name) = joint_name(line, first_token) {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::JointMember || pushed_end_site_joint
+                    {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -432,7 +450,11 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::JointMember
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || has_channels
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
@@ -465,6 +487,7 @@ impl Bvh {
                     }
 
                     curr_joint.set_channels(channels);
+                    has_channels = true;
                 }
                 _ => {}
             }
-- 
2.43.0


From 3082a8cc47ffcfe1815c1bb3e2c9734061d72d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 17/17] fix: loading a joint with many children took quadratic
 time

---
 src/parse.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 754a0eb..91eab62 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -276,14 +276,18 @@ impl Bvh {
         let mut pushed_end_site_joint = false;
         let mut has_channels = false;
 
+        /// The parent is the last joint which was read, or one of its ancestors.
         #[inline]
         fn get_parent_index(joints: &[JointData], for_depth: usize) -> usize {
-            joints
-                .iter()
-                .rev()
-                .find(|jd| jd.depth() == for_depth.saturating_sub(2))
-                .and_then(|jd| jd.private_data().map(|p| p.self_index))
-                .unwrap_or(0)
+            let parent_depth = for_depth.saturating_sub(2);
+            let mut ancestor = joints.last().and_then(JointData::private_data);
+            while let Some(private) = ancestor {
+                if private.depth <= parent_depth {
+                    return private.self_index;
+                }
+                ancestor = joints[private.parent_index].private_data();
+            }
+            0
         }
 
         #[inline]
-- 
2.43.0

