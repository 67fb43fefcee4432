From 15802477e6fd5aa9eba6c77d03bb8efc3d4bb292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 01/29] verif: scheduling hooks for locks and atomics, behind
 cfg(mortal_verif)

---
 src/lib.rs           |   4 ++
 src/unix/screen.rs   |   6 +-
 src/unix/terminal.rs |  10 ++-
 src/verif.rs         | 155 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 172 insertions(+), 3 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 2f641d3..ea57846 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,7 @@
 //! [`term_writeln!`]: macro.term_writeln.html
 
 #![deny(missing_docs)]
+#![allow(unknown_lints, unexpected_cfgs)]
 
 #[macro_use] extern crate bitflags;
 extern crate smallstr;
@@ -60,6 +61,9 @@ pub mod sequence;
 pub mod signal;
 pub mod terminal;
 pub mod util;
+#[cfg(mortal_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 #[cfg(unix)]
 #[path = "unix/mod.rs"]
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..2f13ccc 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,5 +1,7 @@
 use std::io;
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, TryLockResult};
+#[cfg(not(mortal_verif))]
+use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
 use crate::buffer::ScreenBuffer;
@@ -9,6 +11,8 @@ use crate::priv_util::{
 };
 use crate::sys::{Terminal, TerminalReadGuard, TerminalWriteGuard, PrepareState};
 use crate::terminal::{Color, Cursor, CursorMode, Event, Size, Style, PrepareConfig};
+#[cfg(mortal_verif)]
+use crate::verif::{Mutex, MutexGuard};
 
 pub struct Screen {
     term: Terminal,
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..c06b599 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -5,8 +5,12 @@ use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
-use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::atomic::Ordering;
+#[cfg(not(mortal_verif))]
+use std::sync::atomic::AtomicUsize;
+use std::sync::{LockResult, TryLockResult};
+#[cfg(not(mortal_verif))]
+use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
 use libc::{
@@ -42,6 +46,8 @@ use crate::terminal::{
     MouseButton, MouseEvent, MouseInput, ModifierState,
 };
 use crate::util::prefixes;
+#[cfg(mortal_verif)]
+use crate::verif::{AtomicUsize, Mutex, MutexGuard};
 
 const OUT_BUFFER_SIZE: usize = 8192;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..50c7c0e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,155 @@
+//! Verification hooks, compiled only with `--cfg mortal_verif`.
+//!
+//! `Mutex` and `AtomicUsize` here behave exactly as the `std` types they wrap.
+//! Additionally, each operation is announced to a process-wide hook function
+//! (if one is set) so that a model checker can control thread scheduling.
+
+use std::mem::ManuallyDrop;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicUsize as StdAtomicUsize, Ordering};
+use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
+
+/// Describes the synchronization operation announced to the hook function.
+#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+pub enum SyncOp {
+    /// The thread is about to acquire a lock.
+    Lock,
+    /// The thread is about to try to acquire a lock, without waiting.
+    TryLock,
+    /// The lock could not be acquired; the thread must wait for its release.
+    Contended,
+    /// A lock was released.
+    Unlock,
+    /// The thread is about to perform an atomic operation.
+    Atomic,
+}
+
+/// Type of hook function, which receives the operation and an object address.
+///
+/// The result is only considered for `SyncOp::Contended`: If `true`, acquiring
+/// the lock will be tried again. If `false`, the thread will block.
+pub type Hook = fn(SyncOp, usize) -> bool;
+
+static HOOK: StdAtomicUsize = StdAtomicUsize::new(0);
+
+/// Sets the hook function for the process.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.store(hook.map_or(0, |f| f as usize), Ordering::SeqCst);
+}
+
+fn announce(op: SyncOp, addr: usize) -> bool {
+    match HOOK.load(Ordering::SeqCst) {
+        0 => false,
+        f => {
+            let f: Hook = unsafe { std::mem::transmute(f) };
+            f(op, addr)
+        }
+    }
+}
+
+/// Wraps `std::sync::Mutex`
+#[derive(Debug)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+/// Wraps `std::sync::MutexGuard`
+#[derive(Debug)]
+pub struct MutexGuard<'a, T: 'a> {
+    inner: ManuallyDrop<std::sync::MutexGuard<'a, T>>,
+    addr: usize,
+}
+
+impl<T> Mutex<T> {
+    /// Creates a new mutex.
+    pub fn new(t: T) -> Mutex<T> {
+        Mutex(std::sync::Mutex::new(t))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Mutex<T> as usize
+    }
+
+    fn guard<'a>(&self, inner: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard{inner: ManuallyDrop::new(inner), addr: self.addr()}
+    }
+
+    /// Acquires the lock, waiting for its release if necessary.
+    pub fn lock(&self) -> LockResult<MutexGuard<T>> {
+        announce(SyncOp::Lock, self.addr());
+
+        loop {
+            match self.0.try_lock() {
+                Ok(g) => return Ok(self.guard(g)),
+                Err(TryLockError::Poisoned(p)) =>
+                    return Err(PoisonError::new(self.guard(p.into_inner()))),
+                Err(TryLockError::WouldBlock) => ()
+            }
+
+            if !announce(SyncOp::Contended, self.addr()) {
+                return match self.0.lock() {
+                    Ok(g) => Ok(self.guard(g)),
+                    Err(p) => Err(PoisonError::new(self.guard(p.into_inner()))),
+                };
+            }
+        }
+    }
+
+    /// Acquires the lock only if that is possible without waiting.
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<T>> {
+        announce(SyncOp::TryLock, self.addr());
+
+        match self.0.try_lock() {
+            Ok(g) => Ok(self.guard(g)),
+            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(
+                PoisonError::new(self.guard(p.into_inner())))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = std::sync::Mutex<T>;
+
+    fn deref(&self) -> &Self::Target { &self.0 }
+}
+
+impl<T> DerefMut for Mutex<T> {
+    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
+}
+
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T { &self.inner }
+}
+
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T { &mut self.inner }
+}
+
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        unsafe { ManuallyDrop::drop(&mut self.inner); }
+        announce(SyncOp::Unlock, self.addr);
+    }
+}
+
+/// Wraps `std::sync::atomic::AtomicUsize`
+#[derive(Debug)]
+pub struct AtomicUsize(StdAtomicUsize);
+
+impl AtomicUsize {
+    /// Creates a new atomic value.
+    pub const fn new(n: usize) -> AtomicUsize {
+        AtomicUsize(StdAtomicUsize::new(n))
+    }
+}
+
+impl Deref for AtomicUsize {
+    type Target = StdAtomicUsize;
+
+    // Each operation reaches the wrapped value through here.
+    fn deref(&self) -> &StdAtomicUsize {
+        announce(SyncOp::Atomic, &self.0 as *const StdAtomicUsize as usize);
+        &self.0
+    }
+}
-- 
2.43.0


From c1103f53ca377d4523b3ef9bcfd79d0dbb8ff7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 02/29] fix: redraw cells uncovered after a wide character
 covered them

---
 src/buffer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..86e32cd 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -114,7 +114,11 @@ impl ScreenBuffer {
 
             // Skip cells overlapped by wide characters
             if width == 2 {
-                let _ = indices.next();
+                if let Some(next) = indices.next() {
+                    // The terminal no longer shows what was in this cell,
+                    // so it must be redrawn when it is uncovered.
+                    self.back_buffer[next] = Cell::invalid();
+                }
             }
 
             if self.buffer[idx] != self.back_buffer[idx] {
-- 
2.43.0


From 74504bfe87f98f95c0cd82e9d0724b0a21e6dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 03/29] fix: track the cursor correctly after drawing a wide
 character

---
 src/buffer.rs      | 5 +++++
 src/unix/screen.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 86e32cd..44e9dbe 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -507,6 +507,11 @@ impl Cell {
         &self.text
     }
 
+    /// Number of columns covered by the cell's text
+    pub fn width(&self) -> usize {
+        if self.is_wide() { 2 } else { 1 }
+    }
+
     fn first_char(&self) -> char {
         self.text.chars().next().expect("empty cell text")
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 2f13ccc..da50f51 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -196,7 +196,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 6c2a6898197f63fb127798cf2f992a089559b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 04/29] fix: attach combining marks to the visible cell of a
 wide character

---
 src/buffer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 44e9dbe..a21bcf5 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -174,8 +174,19 @@ impl ScreenBuffer {
             self.cursor.line += 1;
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
-            if let Some(prev) = self.cursor.previous(self.size) {
+            if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
+
+                // The second cell of a wide character is not displayed;
+                // the mark belongs to the character itself.
+                if prev.column != 0 {
+                    let first = Cursor{column: prev.column - 1, ..prev};
+
+                    if self.cell_mut(first).is_wide() {
+                        prev = first;
+                    }
+                }
+
                 self.cell_mut(prev).text.push(ch);
             }
         } else if is_visible(ch) {
-- 
2.43.0


From 7fd90f9241aeddaee06f4b43aa172575decd34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 05/29] fix: do not panic on a wide character in a one-column
 screen

---
 src/buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index a21bcf5..8460c5a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -192,6 +192,13 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let width = char_width(ch).unwrap_or(0);
+
+            // The character cannot be displayed on any line
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             if let Some(prev) = self.cursor.previous(self.size) {
                 let cell = self.cell_mut(prev);
 
@@ -201,7 +208,6 @@ impl ScreenBuffer {
             }
 
             let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
 
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
-- 
2.43.0


From 88d17a9f8559e2f4dbe50f6d55207ec06593eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 06/29] fix: fill the line end with spaces before a wrapped
 wide character

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8460c5a..f04f86c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -216,7 +216,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From 58560bc7b354e45c76e5230e4756719061260052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 07/29] fix: blank a wide character cut off by a resize

---
 src/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index f04f86c..d4d8d15 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -557,6 +557,11 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // A wide character may have been cut off by the new edge
+                if n_cols == new.len() && new[n_cols - 1].is_wide() {
+                    new[n_cols - 1] = Cell::default();
+                }
             }
         }
 
-- 
2.43.0


From fe04e5324cb51d30041395e7630612fc858adf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 08/29] fix: ScreenBuffer::write_styled clears attributes when
 text overflows

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index d4d8d15..e629b40 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -267,10 +267,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 0017c1dc6a5ff0c9da9e004968f6175fc7e0a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 09/29] fix: do not overflow the line number when moving to the
 next line

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index e629b40..8e89092 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -59,7 +59,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -171,7 +171,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
+            self.cursor.line = self.cursor.line.saturating_add(1);
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
             if let Some(mut prev) = self.cursor.previous(self.size) {
-- 
2.43.0


From 5797dbcf3eaa8cda1f1d8b2f727d129cb2138bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 10/29] fix: do not lose other attributes when italics or
 underline is removed

---
 src/unix/terminal.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index c06b599..929498c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -810,9 +810,7 @@ impl<'a> TerminalWriteGuard<'a> {
     pub fn remove_style(&mut self, style: Style) -> io::Result<()> {
         let remove = style & self.writer.cur_style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.must_reset(remove) {
             let new_style = self.writer.cur_style - remove;
             let fg = self.writer.fg;
             let bg = self.writer.bg;
@@ -834,13 +832,28 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
+    // Returns whether all attributes must be reset to remove the given styles.
+    //
+    // terminfo does not contain entries to remove bold or reverse.
+    // The entries to remove italics and underline may not exist or may
+    // reset all attributes.
+    fn must_reset(&self, remove: Style) -> bool {
+        let info = &self.term.info;
+
+        remove.intersects(Style::BOLD | Style::REVERSE) ||
+            (remove.contains(Style::ITALIC) &&
+                info.get::<cap::ExitItalicsMode>()
+                    .map_or(true, |cap| resets_attributes(cap.as_ref()))) ||
+            (remove.contains(Style::UNDERLINE) &&
+                info.get::<cap::ExitUnderlineMode>()
+                    .map_or(true, |cap| resets_attributes(cap.as_ref())))
+    }
+
     pub fn set_style(&mut self, style: Style) -> io::Result<()> {
         let add = style - self.writer.cur_style;
         let remove = self.writer.cur_style - style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
-            // Instead, we must reset all attributes.
+        if self.must_reset(remove) {
             let fg = self.writer.fg;
             let bg = self.writer.bg;
             self.clear_attributes()?;
@@ -1392,6 +1405,11 @@ fn take_signal() -> Option<Signal> {
     conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
 }
 
+// Returns whether an escape sequence begins by resetting all attributes
+fn resets_attributes(seq: &[u8]) -> bool {
+    seq.starts_with(b"\x1b[m") || seq.starts_with(b"\x1b[0")
+}
+
 fn ascii_str(s: &[u8]) -> Option<&str> {
     use std::str::from_utf8_unchecked;
 
-- 
2.43.0


From 11c8cf24252bdeaf08e2b9bfbf1387cf8f2d9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 11/29] fix: continue a partial write where it left off

write_data passed the whole buffer again after a partial write, repeating
output and never ending if the counts did not add up to its length.
---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 929498c..9ff9ec0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1045,7 +1045,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From b0678863e382533782c6b472a73fb62d171606f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 12/29] fix: redraw a cell whose output failed

A refresh failing to write a cell's text marked it as drawn all the same, so
that later refreshes did not draw it.
---
 src/buffer.rs      |  8 ++++++++
 src/unix/screen.rs | 21 +++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8e89092..6817d76 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,6 +136,14 @@ impl ScreenBuffer {
         None
     }
 
+    /// Causes the cell at the given position to be returned by `next_cell`
+    /// even if its contents do not change.
+    #[cfg(unix)]
+    pub fn invalidate(&mut self, pos: Cursor) {
+        let size = self.size;
+        self.back_buffer[pos.as_index(size)] = Cell::invalid();
+    }
+
     #[cfg(test)]
     fn cell(&self, pos: Cursor) -> &Cell {
         &self.buffer[pos.as_index(self.size)]
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index da50f51..815cde1 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -4,7 +4,7 @@ use std::sync::{LockResult, TryLockResult};
 use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
-use crate::buffer::ScreenBuffer;
+use crate::buffer::{Cell, ScreenBuffer};
 use crate::priv_util::{
     map_lock_result, map_try_lock_result,
     map2_lock_result, map2_try_lock_result,
@@ -192,11 +192,12 @@ impl<'a> ScreenWriteGuard<'a> {
         let mut indices = self.data.buffer.indices();
 
         while let Some((pos, cell)) = self.data.buffer.next_cell(&mut indices) {
-            self.move_cursor(pos)?;
-
-            self.apply_attrs(cell.attrs())?;
-            self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += cell.width();
+            if let Err(e) = self.draw_cell(pos, &cell) {
+                // The cell was not drawn and must be drawn on the next refresh
+                self.data.buffer.invalidate(pos);
+                self.data.real_cursor = (!0, !0).into();
+                return Err(e);
+            }
         }
 
         self.writer.clear_attributes()?;
@@ -213,6 +214,14 @@ impl<'a> ScreenWriteGuard<'a> {
         self.writer.flush()
     }
 
+    fn draw_cell(&mut self, pos: Cursor, cell: &Cell) -> io::Result<()> {
+        self.move_cursor(pos)?;
+        self.apply_attrs(cell.attrs())?;
+        self.writer.write_str(cell.text())?;
+        self.data.real_cursor.column += cell.width();
+        Ok(())
+    }
+
     fn move_cursor(&mut self, pos: Cursor) -> io::Result<()> {
         if self.data.real_cursor != pos {
             self.writer.move_cursor(pos)?;
-- 
2.43.0


From e467bd9dfb47801b55a1bb3a38e2a768879ffe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 13/29] fix: do not scroll when moving up one line from the
 first

---
 src/unix/terminal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 9ff9ec0..5099f32 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -926,7 +926,9 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn move_up(&mut self, n: usize) -> io::Result<()> {
-        if n == 1 {
+        // Prefer ParmUpCursor because CursorUp may scroll the screen
+        // (as reverse index does) when the cursor is on the first line.
+        if n == 1 && self.term.info.get::<cap::ParmUpCursor>().is_none() {
             expand_req!(self, cap::CursorUp, "cursor_up")?;
         } else if n != 0 {
             expand_req!(self, cap::ParmUpCursor, "parm_cursor_up",
-- 
2.43.0


From 71fd856559e162ad9c4a0eb9a70d340ad03c48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 14/29] fix: do not send negative counts to the terminal for
 large moves

---
 src/unix/terminal.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5099f32..86d7e12 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1440,16 +1440,7 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
-#[cfg(target_pointer_width = "64")]
+// Converts a value to a `terminfo` parameter, which is a signed 32-bit integer.
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
-    } else {
-        u as u32
-    }
-}
-
-#[cfg(any(target_pointer_width = "16", target_pointer_width = "32"))]
-fn to_u32(u: usize) -> u32 {
-    u as u32
+    i32::try_from(u).unwrap_or(i32::max_value()) as u32
 }
-- 
2.43.0


From 77cd0b82617664f134dfcec392d32de743c5d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 15/29] fix: do not panic when an error in drop cannot be
 written to stderr

---
 src/priv_util.rs     | 11 +++++++++++
 src/unix/screen.rs   |  5 +++--
 src/unix/terminal.rs |  6 +++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/priv_util.rs b/src/priv_util.rs
index cd22111..a2beee1 100644
--- a/src/priv_util.rs
+++ b/src/priv_util.rs
@@ -1,3 +1,5 @@
+#[cfg(unix)]
+use std::io::{self, Write};
 use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
 
 use crate::screen::{Screen, ScreenReadGuard};
@@ -63,3 +65,12 @@ pub fn map2_try_lock_result<F, T, U, R>(
                 f(a.into_inner(), b.into_inner())))),
     }
 }
+
+// Reports an error that cannot be returned, as in a `Drop` implementation.
+//
+// Unlike `eprintln!`, this does not panic when `stderr` cannot be written to,
+// e.g. because it is a terminal which is gone.
+#[cfg(unix)]
+pub fn report_error(what: &str, e: &io::Error) {
+    let _ = writeln!(io::stderr(), "{}: {}", what, e);
+}
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 815cde1..decd222 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -8,6 +8,7 @@ use crate::buffer::{Cell, ScreenBuffer};
 use crate::priv_util::{
     map_lock_result, map_try_lock_result,
     map2_lock_result, map2_try_lock_result,
+    report_error,
 };
 use crate::sys::{Terminal, TerminalReadGuard, TerminalWriteGuard, PrepareState};
 use crate::terminal::{Color, Cursor, CursorMode, Event, Size, Style, PrepareConfig};
@@ -134,7 +135,7 @@ impl Drop for Screen {
         };
 
         if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
-            eprintln!("failed to restore terminal: {}", e);
+            report_error("failed to restore terminal", &e);
         }
     }
 }
@@ -241,7 +242,7 @@ impl<'a> ScreenWriteGuard<'a> {
 impl<'a> Drop for ScreenWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.refresh() {
-            eprintln!("failed to refresh screen: {}", e);
+            report_error("failed to refresh screen", &e);
         }
     }
 }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 86d7e12..901583a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -38,7 +38,7 @@ use terminfo::{self, capability as cap, Database};
 use terminfo::capability::Expansion;
 use terminfo::expand::Context;
 
-use crate::priv_util::{map_lock_result, map_try_lock_result};
+use crate::priv_util::{map_lock_result, map_try_lock_result, report_error};
 use crate::sequence::{FindResult, SequenceMap};
 use crate::signal::{Signal, SignalSet};
 use crate::terminal::{
@@ -306,7 +306,7 @@ impl Terminal {
 impl Drop for Terminal {
     fn drop(&mut self) {
         if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
-            eprintln!("failed to restore terminal: {}", e);
+            report_error("failed to restore terminal", &e);
         }
 
         if self.owned_fd {
@@ -1070,7 +1070,7 @@ impl<'a> TerminalWriteGuard<'a> {
 impl<'a> Drop for TerminalWriteGuard<'a> {
     fn drop(&mut self) {
         if let Err(e) = self.flush() {
-            eprintln!("failed to flush terminal: {}", e);
+            report_error("failed to flush terminal", &e);
         }
     }
 }
-- 
2.43.0


From e0dcd2f3aa2e5374cce7dbe9b0aab159e4e3c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 16/29] fix: do not block all input behind invalid UTF-8

---
 src/unix/terminal.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 901583a..3df2408 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -464,8 +464,10 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(true);
         }
 
-        if peek_event(&self.reader.in_buffer, &self.term.sequences)?.is_some() {
-            return Ok(true);
+        match peek_event(&self.reader.in_buffer, &self.term.sequences) {
+            Ok(None) => (),
+            // An error is reported by the following read
+            Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
         let mut timeout = timeout.map(to_timeval);
@@ -602,7 +604,13 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Discard the invalid data; otherwise, it would be found
+                    // again by each following read.
+                    let n = invalid_utf8_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1382,6 +1390,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+// Returns the length of the invalid UTF-8 sequence at the beginning of `buf`
+fn invalid_utf8_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0


From a82f26f153d857112be2a2a836c3190a44343ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 17/29] fix: do not underflow on a mouse report at column or
 line 0

---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3df2408..5d4efeb 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1327,8 +1327,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From 4988419d556c28130d03f10964f3dcb36eeebbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 18/29] fix: accept any timeout, with microsecond precision

---
 src/unix/terminal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5d4efeb..dcc5c64 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1219,16 +1219,19 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    // The greatest number of seconds accepted by `TimeVal`, less one
+    // in case of rounding up
+    const MAX_SECS: i64 = i64::max_value() / 1_000_000 - 2;
 
     let secs = match d.as_secs() {
         n if n > MAX_SECS as u64 => MAX_SECS,
         n => n as i64,
     };
 
-    let millis = d.subsec_millis() as i64;
+    // Round up so that a timeout does not elapse early
+    let micros = (d.subsec_nanos() as i64 + 999) / 1_000;
 
-    TimeVal::milliseconds(secs * 1_000 + millis)
+    TimeVal::microseconds(secs * 1_000_000 + micros)
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
-- 
2.43.0


From 26ef759f14cbb0d909001d438e2bea36c2c53dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 19/29] fix: do not lose signals which are received together or
 just before waiting

---
 src/unix/terminal.rs | 201 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 176 insertions(+), 25 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index dcc5c64..e33ea85 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -4,8 +4,9 @@ use std::io;
 use std::mem::{replace, zeroed};
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
+use std::ptr::null_mut;
 use std::str::from_utf8;
-use std::sync::atomic::Ordering;
+use std::sync::atomic::{AtomicPtr, Ordering};
 #[cfg(not(mortal_verif))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::{LockResult, TryLockResult};
@@ -329,6 +330,8 @@ impl<'a> TerminalReadGuard<'a> {
             config: PrepareConfig) -> io::Result<PrepareState> {
         use nix::sys::termios::SpecialCharacterIndices::*;
 
+        create_signal_pipe()?;
+
         let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
         let mut tio = old_tio.clone();
 
@@ -460,7 +463,7 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
-        if get_signal().is_some() {
+        if signal_pending() {
             return Ok(true);
         }
 
@@ -470,10 +473,18 @@ impl<'a> TerminalReadGuard<'a> {
             Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
-        let mut timeout = timeout.map(to_timeval);
+        Ok(self.wait_input(&mut timeout.map(to_timeval))? != Wait::Timeout)
+    }
 
-        let n = loop {
-            let in_fd = self.term.in_fd;
+    // Waits until input or a signal is received or the timeout, which is
+    // replaced with the remaining time, has elapsed.
+    fn wait_input(&mut self, timeout: &mut Option<TimeVal>) -> io::Result<Wait> {
+        let in_fd = self.term.in_fd;
+
+        loop {
+            if signal_pending() {
+                return Ok(Wait::Signal);
+            }
 
             let mut r_fds = FdSet::new();
             r_fds.insert(in_fd);
@@ -482,19 +493,32 @@ impl<'a> TerminalReadGuard<'a> {
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
-            match select(in_fd + 1,
+            // A signal received after the check above writes to the pipe
+            let pipe = signal_pipe();
+            let mut max_fd = in_fd;
+
+            if let Some(ref pipe) = pipe {
+                r_fds.insert(pipe.read);
+                max_fd = max_fd.max(pipe.read);
+            }
+
+            match select(max_fd + 1,
                     Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
-                Ok(n) => break n,
-                Err(Errno::EINTR) =>
-                    if get_signal().is_some() {
-                        return Ok(true);
+                Ok(0) => return Ok(Wait::Timeout),
+                Ok(_) => {
+                    if r_fds.contains(in_fd) || e_fds.contains(in_fd) {
+                        return Ok(Wait::Input);
                     }
-                
+
+                    if !signal_pending() {
+                        // The signal has been taken by another reader
+                        clear_signal_pipe();
+                    }
+                }
+                Err(Errno::EINTR) => (),
                 Err(e) => return Err(nix_to_io(e))
             }
-        };
-
-        Ok(n != 0)
+        }
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
@@ -565,13 +589,20 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     fn read_input(&mut self, buf: &mut [u8], timeout: Option<Duration>) -> io::Result<Option<Event>> {
-        // Check for a signal that may have already arrived.
-        if let Some(sig) = take_signal() {
-            return Ok(Some(Event::Signal(sig)));
-        }
+        let mut timeout = timeout.map(to_timeval);
 
-        if !self.wait_event(timeout)? {
-            return Ok(None);
+        loop {
+            // Check for a signal before input; one may have already arrived.
+            if let Some(sig) = take_signal() {
+                return Ok(Some(Event::Signal(sig)));
+            }
+
+            match self.wait_input(&mut timeout)? {
+                Wait::Timeout => return Ok(None),
+                // May have been taken by a reader of another terminal
+                Wait::Signal => (),
+                Wait::Input => break
+            }
         }
 
         // Check for a signal again after waiting
@@ -1401,10 +1432,119 @@ fn invalid_utf8_len(buf: &[u8]) -> usize {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+enum Wait {
+    Input,
+    Signal,
+    Timeout,
+}
+
+// Signals handled by `handle_signal`, in the order in which they are reported
+const HANDLED_SIGNALS: &[c_int] = &[
+    libc::SIGCONT,
+    libc::SIGWINCH,
+    libc::SIGINT,
+    libc::SIGQUIT,
+    libc::SIGTSTP,
+];
+
+// Set of signals received, but not yet taken by `take_signal`.
+// Each is represented by the bit at its index in `HANDLED_SIGNALS`.
+static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
+
+// Contains data while signals are pending. This ends a wait for input,
+// even if the signal was received before it began or by another thread.
+struct SignalPipe {
+    read: RawFd,
+    write: RawFd,
+}
+
+// Once created, the pipe is used until the process exits.
+static SIGNAL_PIPE: AtomicPtr<SignalPipe> = AtomicPtr::new(null_mut());
+
+fn signal_pipe() -> Option<&'static SignalPipe> {
+    unsafe { SIGNAL_PIPE.load(Ordering::SeqCst).as_ref() }
+}
+
+fn create_signal_pipe() -> io::Result<()> {
+    if signal_pipe().is_some() {
+        return Ok(());
+    }
+
+    let mut fds = [0; 2];
+
+    if unsafe { libc::pipe(fds.as_mut_ptr()) } == -1 {
+        return Err(io::Error::last_os_error());
+    }
+
+    let close = || unsafe {
+        close_fd(fds[0]);
+        close_fd(fds[1]);
+    };
+
+    for &fd in &fds {
+        let r = unsafe {
+            match libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC) {
+                -1 => -1,
+                _ => libc::fcntl(fd, libc::F_SETFL, libc::O_NONBLOCK)
+            }
+        };
+
+        if r == -1 {
+            let e = io::Error::last_os_error();
+            close();
+            return Err(e);
+        }
+    }
+
+    if fds[0] as usize >= libc::FD_SETSIZE {
+        // The pipe cannot be used to wait.
+        close();
+        return Ok(());
+    }
+
+    let pipe = Box::into_raw(Box::new(SignalPipe{read: fds[0], write: fds[1]}));
+
+    if SIGNAL_PIPE.compare_exchange(null_mut(), pipe,
+            Ordering::SeqCst, Ordering::SeqCst).is_err() {
+        // Another thread has created the pipe
+        close();
+        drop(unsafe { Box::from_raw(pipe) });
+    }
+
+    Ok(())
+}
+
+// Writes to the signal pipe. This is called by the signal handler.
+fn notify_signal_pipe() {
+    if let Some(pipe) = signal_pipe() {
+        unsafe { libc::write(pipe.write, b"!".as_ptr() as *const _, 1); }
+    }
+}
+
+fn clear_signal_pipe() {
+    if let Some(pipe) = signal_pipe() {
+        let mut buf = [0; 16];
+
+        while read(pipe.read, &mut buf) == Ok(buf.len()) {}
+    }
+
+    // One may have been received before reading from the pipe
+    if signal_pending() {
+        notify_signal_pipe();
+    }
+}
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    if let Some(n) = HANDLED_SIGNALS.iter().position(|&sig| sig == signum) {
+        let bit = 1 << n;
+
+        // If it is pending already, the pipe is not written again.
+        // Therefore, the pipe cannot become full, which would modify `errno`.
+        if PENDING_SIGNALS.fetch_or(bit, Ordering::SeqCst) & bit == 0 {
+            notify_signal_pipe();
+        }
+    }
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1418,12 +1558,23 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
     }
 }
 
-fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+fn signal_pending() -> bool {
+    PENDING_SIGNALS.load(Ordering::SeqCst) != 0
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    if !signal_pending() {
+        return None;
+    }
+
+    let taken = HANDLED_SIGNALS.iter().enumerate().find(|&(n, _)| {
+        let bit = 1 << n;
+        PENDING_SIGNALS.fetch_and(!bit, Ordering::SeqCst) & bit != 0
+    });
+
+    clear_signal_pipe();
+
+    taken.and_then(|(_, &sig)| conv_signal(sig))
 }
 
 // Returns whether an escape sequence begins by resetting all attributes
-- 
2.43.0


From 07122181720f9a7a6513d180bacaa646d42f0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:43 +0000
Subject: [PATCH 20/29] fix: do not lose a resize while a screen is opened

---
 src/unix/screen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index decd222..c134936 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -40,7 +40,6 @@ struct Writer {
 
 impl Screen {
     pub fn new(term: Terminal, config: PrepareConfig) -> io::Result<Screen> {
-        let size = term.size()?;
         let state = term.prepare(config)?;
 
         let screen = Screen{
@@ -48,12 +47,16 @@ impl Screen {
             state: Some(state),
 
             writer: Mutex::new(Writer{
-                buffer: ScreenBuffer::new(size),
+                buffer: ScreenBuffer::new(Size{lines: 0, columns: 0}),
                 clear_screen: false,
                 real_cursor: Cursor::default(),
             }),
         };
 
+        // Any later resize will be reported, as its signal is now handled.
+        let size = screen.term.size()?;
+        screen.lock_write_data().buffer.resize(size);
+
         screen.term.enter_screen()?;
 
         Ok(screen)
-- 
2.43.0


From 887fb765f9091c5e02797d5ea4de7d3b4d287e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 21/29] fix: preserve device modes unknown to nix

---
 src/unix/terminal.rs | 77 ++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index e33ea85..964423a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -16,7 +16,7 @@ use std::time::Duration;
 
 use libc::{
     ioctl,
-    c_int, c_ushort, termios,
+    c_int, c_ushort, tcflag_t, termios,
     STDIN_FILENO, STDOUT_FILENO, STDERR_FILENO, TIOCGWINSZ,
 };
 
@@ -26,10 +26,6 @@ use nix::sys::signal::{
     sigaction,
     SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet,
 };
-use nix::sys::termios::{
-    tcgetattr, tcsetattr,
-    SetArg, InputFlags, LocalFlags,
-};
 use nix::sys::time::{TimeVal, TimeValLike};
 use nix::unistd::{read, write};
 
@@ -328,15 +324,13 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn prepare_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             config: PrepareConfig) -> io::Result<PrepareState> {
-        use nix::sys::termios::SpecialCharacterIndices::*;
-
         create_signal_pipe()?;
 
-        let old_tio = tcgetattr(self.term.in_fd).map_err(nix_to_io)?;
-        let mut tio = old_tio.clone();
+        let old_tio = get_termios(self.term.in_fd)?;
+        let mut tio = old_tio;
 
         let mut state = PrepareState{
-            old_tio: old_tio.into(),
+            old_tio,
             old_sigcont: None,
             old_sigint: None,
             old_sigtstp: None,
@@ -347,40 +341,28 @@ impl<'a> TerminalReadGuard<'a> {
             prev_resume: self.reader.resume,
         };
 
-        tio.input_flags.remove(
-            // Disable carriage return/line feed conversion
-            InputFlags::INLCR | InputFlags::ICRNL
-        );
+        // Disable carriage return/line feed conversion
+        set_flags(&mut tio.c_iflag, libc::INLCR | libc::ICRNL, false);
 
-        tio.local_flags.remove(
-            // Disable canonical mode;
-            // this gives us input without waiting for newline or EOF
-            // and disables line-editing, treating such inputs as characters.
-            // Disable ECHO, preventing input from being written to output.
-            LocalFlags::ICANON | LocalFlags::ECHO
-        );
+        // Disable canonical mode;
+        // this gives us input without waiting for newline or EOF
+        // and disables line-editing, treating such inputs as characters.
+        // Disable ECHO, preventing input from being written to output.
+        set_flags(&mut tio.c_lflag, libc::ICANON | libc::ECHO, false);
 
         // ISIG, when enabled, causes the process to receive signals when
         // Ctrl-C, Ctrl-\, etc. are input
-        if config.block_signals {
-            tio.local_flags.remove(LocalFlags::ISIG);
-        } else {
-            tio.local_flags.insert(LocalFlags::ISIG);
-        }
+        set_flags(&mut tio.c_lflag, libc::ISIG, !config.block_signals);
 
         // IXON, when enabled, allows Ctrl-S/Ctrl-Q to suspend and restart inputs
-        if config.enable_control_flow {
-            tio.input_flags.insert(InputFlags::IXON);
-        } else {
-            tio.input_flags.remove(InputFlags::IXON);
-        }
+        set_flags(&mut tio.c_iflag, libc::IXON, config.enable_control_flow);
 
         // Allow a read to return with 0 characters ready
-        tio.control_chars[VMIN as usize] = 0;
+        tio.c_cc[libc::VMIN] = 0;
         // Allow a read to return after 0 deciseconds
-        tio.control_chars[VTIME as usize] = 0;
+        tio.c_cc[libc::VTIME] = 0;
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
+        set_termios(self.term.in_fd, &tio)?;
 
         if config.enable_mouse {
             if writer.enable_mouse(config.always_track_motion)? {
@@ -439,7 +421,7 @@ impl<'a> TerminalReadGuard<'a> {
 
         writer.flush()?;
 
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
+        set_termios(self.term.in_fd, &state.old_tio)?;
 
         unsafe {
             if let Some(ref old) = state.old_sigcont {
@@ -1191,6 +1173,31 @@ struct Resume {
     config: PrepareConfig,
 }
 
+// The `nix` equivalent would clear flags which are unknown to it.
+fn get_termios(fd: RawFd) -> io::Result<termios> {
+    let mut tio = unsafe { zeroed() };
+
+    match unsafe { libc::tcgetattr(fd, &mut tio) } {
+        -1 => Err(io::Error::last_os_error()),
+        _ => Ok(tio)
+    }
+}
+
+fn set_termios(fd: RawFd, tio: &termios) -> io::Result<()> {
+    match unsafe { libc::tcsetattr(fd, libc::TCSANOW, tio) } {
+        -1 => Err(io::Error::last_os_error()),
+        _ => Ok(())
+    }
+}
+
+fn set_flags(field: &mut tcflag_t, flags: tcflag_t, enabled: bool) {
+    if enabled {
+        *field |= flags;
+    } else {
+        *field &= !flags;
+    }
+}
+
 unsafe fn close_fd(fd: RawFd) {
     drop(File::from_raw_fd(fd));
 }
-- 
2.43.0


From 91877477fbcece2f974277ead2fa44ae976720b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/29] fix: restore modes and reported signals of an outer
 prepare

---
 src/unix/terminal.rs | 83 ++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 964423a..cd98830 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -91,6 +91,7 @@ struct Reader {
     in_buffer: Vec<u8>,
     resume: Option<Resume>,
     report_signals: SignalSet,
+    modes: InputModes,
 }
 
 struct Writer {
@@ -116,6 +117,7 @@ impl Terminal {
                 in_buffer: Vec::new(),
                 resume: None,
                 report_signals: SignalSet::new(),
+                modes: InputModes::default(),
             }),
             writer: Mutex::new(Writer::new()),
         })
@@ -149,6 +151,10 @@ impl Terminal {
         is_xterm(self.name())
     }
 
+    fn has_keypad(&self) -> bool {
+        self.info.get::<cap::KeypadXmit>().is_some()
+    }
+
     pub fn size(&self) -> io::Result<Size> {
         self.lock_writer().size()
     }
@@ -336,8 +342,8 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigtstp: None,
             old_sigquit: None,
             old_sigwinch: None,
-            restore_keypad: false,
-            restore_mouse: false,
+            prev_modes: self.reader.modes,
+            prev_report_signals: self.reader.report_signals,
             prev_resume: self.reader.resume,
         };
 
@@ -364,16 +370,28 @@ impl<'a> TerminalReadGuard<'a> {
 
         set_termios(self.term.in_fd, &tio)?;
 
-        if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
+        // Modes enabled by an earlier `prepare` remain enabled.
+        let mut modes = self.reader.modes;
+
+        if config.enable_mouse && self.term.is_xterm() {
+            modes.mouse = Some(config.always_track_motion);
+        }
+
+        if config.enable_keypad && self.term.has_keypad() {
+            modes.keypad = true;
         }
 
-        if config.enable_keypad {
-            if writer.enable_keypad()? {
-                state.restore_keypad = true;
+        let old_modes = replace(&mut self.reader.modes, modes);
+
+        if let Some(track_motion) = modes.mouse {
+            if old_modes.mouse == Some(true) && !track_motion {
+                writer.disable_mouse_motion()?;
             }
+            writer.enable_mouse(track_motion)?;
+        }
+
+        if modes.keypad {
+            writer.enable_keypad()?;
         }
 
         writer.flush()?;
@@ -410,12 +428,19 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_report_signals;
 
-        if state.restore_mouse {
+        let modes = replace(&mut self.reader.modes, state.prev_modes);
+
+        if modes.mouse != state.prev_modes.mouse {
             writer.disable_mouse()?;
+
+            if let Some(track_motion) = state.prev_modes.mouse {
+                writer.enable_mouse(track_motion)?;
+            }
         }
 
-        if state.restore_keypad {
+        if modes.keypad && !state.prev_modes.keypad {
             writer.disable_keypad()?;
         }
 
@@ -705,30 +730,28 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn enable_keypad(&mut self) -> io::Result<bool> {
+    fn enable_keypad(&mut self) -> io::Result<()> {
         if let Some(xmit) = self.term.info.get::<cap::KeypadXmit>() {
             self.expand(xmit.expand())?;
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 
     fn disable_mouse(&mut self) -> io::Result<()> {
         self.write_bytes(XTERM_DISABLE_MOUSE.as_bytes())?;
+        self.disable_mouse_motion()
+    }
+
+    fn disable_mouse_motion(&mut self) -> io::Result<()> {
         self.write_bytes(XTERM_DISABLE_MOUSE_MOTION.as_bytes())
     }
 
-    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<bool> {
-        if self.term.is_xterm() {
-            self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
-            if track_motion {
-                self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
-            }
-            Ok(true)
-        } else {
-            Ok(false)
+    fn enable_mouse(&mut self, track_motion: bool) -> io::Result<()> {
+        self.write_bytes(XTERM_ENABLE_MOUSE.as_bytes())?;
+        if track_motion {
+            self.write_bytes(XTERM_ENABLE_MOUSE_MOTION.as_bytes())?;
         }
+        Ok(())
     }
 
     fn enter_screen(&mut self) -> io::Result<()> {
@@ -1163,11 +1186,19 @@ pub struct PrepareState {
     old_sigtstp: Option<SigAction>,
     old_sigquit: Option<SigAction>,
     old_sigwinch: Option<SigAction>,
-    restore_keypad: bool,
-    restore_mouse: bool,
+    prev_modes: InputModes,
+    prev_report_signals: SignalSet,
     prev_resume: Option<Resume>,
 }
 
+// Modes of the terminal which are set by writing to it
+#[derive(Copy, Clone, Debug, Default)]
+struct InputModes {
+    keypad: bool,
+    // If enabled, whether motion is always tracked
+    mouse: Option<bool>,
+}
+
 #[derive(Copy, Clone, Debug)]
 struct Resume {
     config: PrepareConfig,
-- 
2.43.0


From ad8d16a670805190d268b7c1ae88a753f4fdfc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 23/29] fix: revert a failed prepare and complete a failed
 restore

---
 src/unix/screen.rs   |  3 +-
 src/unix/terminal.rs | 81 +++++++++++++++++++++++++++-----------------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index c134936..72f0305 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -137,7 +137,8 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        // The screen is left even if the first step has failed
+        if let Err(e) = res.and(self.term.exit_screen()) {
             report_error("failed to restore terminal", &e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index cd98830..4cc38e0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -333,7 +333,6 @@ impl<'a> TerminalReadGuard<'a> {
         create_signal_pipe()?;
 
         let old_tio = get_termios(self.term.in_fd)?;
-        let mut tio = old_tio;
 
         let mut state = PrepareState{
             old_tio,
@@ -347,6 +346,21 @@ impl<'a> TerminalReadGuard<'a> {
             prev_resume: self.reader.resume,
         };
 
+        match self.apply_config(writer, config, &mut state) {
+            Ok(()) => Ok(state),
+            Err(e) => {
+                // Revert the steps which have succeeded
+                let _ = self.restore_with_lock(writer, state);
+                Err(e)
+            }
+        }
+    }
+
+    // Records in `state` each signal action that has been replaced.
+    fn apply_config(&mut self, writer: &mut TerminalWriteGuard,
+            config: PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
+        let mut tio = state.old_tio;
+
         // Disable carriage return/line feed conversion
         set_flags(&mut tio.c_iflag, libc::INLCR | libc::ICRNL, false);
 
@@ -417,7 +431,7 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.report_signals = config.report_signals;
         self.reader.resume = Some(Resume{config});
 
-        Ok(state)
+        Ok(())
     }
 
     pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
@@ -432,41 +446,28 @@ impl<'a> TerminalReadGuard<'a> {
 
         let modes = replace(&mut self.reader.modes, state.prev_modes);
 
-        if modes.mouse != state.prev_modes.mouse {
-            writer.disable_mouse()?;
-
-            if let Some(track_motion) = state.prev_modes.mouse {
-                writer.enable_mouse(track_motion)?;
-            }
-        }
+        // If a step fails, the following steps are performed nevertheless
+        // and the first error is returned.
+        let mut res = writer.restore_modes(modes, state.prev_modes);
 
-        if modes.keypad && !state.prev_modes.keypad {
-            writer.disable_keypad()?;
-        }
+        res = res.and(set_termios(self.term.in_fd, &state.old_tio));
 
-        writer.flush()?;
+        let actions = [
+            (NixSignal::SIGCONT, &state.old_sigcont),
+            (NixSignal::SIGINT, &state.old_sigint),
+            (NixSignal::SIGTSTP, &state.old_sigtstp),
+            (NixSignal::SIGQUIT, &state.old_sigquit),
+            (NixSignal::SIGWINCH, &state.old_sigwinch),
+        ];
 
-        set_termios(self.term.in_fd, &state.old_tio)?;
-
-        unsafe {
-            if let Some(ref old) = state.old_sigcont {
-                sigaction(NixSignal::SIGCONT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigint {
-                sigaction(NixSignal::SIGINT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigtstp {
-                sigaction(NixSignal::SIGTSTP, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigquit {
-                sigaction(NixSignal::SIGQUIT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigwinch {
-                sigaction(NixSignal::SIGWINCH, old).map_err(nix_to_io)?;
+        for &(sig, old) in &actions {
+            if let Some(ref old) = *old {
+                let r = unsafe { sigaction(sig, old) };
+                res = res.and(r.map(|_| ()).map_err(nix_to_io));
             }
         }
 
-        Ok(())
+        res
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
@@ -723,6 +724,24 @@ impl<'a> TerminalWriteGuard<'a> {
         get_winsize(self.term.out_fd)
     }
 
+    fn restore_modes(&mut self, modes: InputModes, prev: InputModes) -> io::Result<()> {
+        let mut res = Ok(());
+
+        if modes.mouse != prev.mouse {
+            res = res.and(self.disable_mouse());
+
+            if let Some(track_motion) = prev.mouse {
+                res = res.and(self.enable_mouse(track_motion));
+            }
+        }
+
+        if modes.keypad && !prev.keypad {
+            res = res.and(self.disable_keypad());
+        }
+
+        res.and(self.flush())
+    }
+
     fn disable_keypad(&mut self) -> io::Result<()> {
         if let Some(local) = self.term.info.get::<cap::KeypadLocal>() {
             self.expand(local.expand())?;
-- 
2.43.0


From 0966db427e28a26fc9d0e57ca2882cbd06f160c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 24/29] fix: restore the terminal even if a lock is poisoned

---
 src/unix/screen.rs   | 12 +++++++++---
 src/unix/terminal.rs | 11 ++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 72f0305..dacfbd8 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::{LockResult, TryLockResult};
+use std::sync::{LockResult, PoisonError, TryLockResult};
 #[cfg(not(mortal_verif))]
 use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
@@ -131,14 +131,20 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // The terminal is restored even if a thread panicked with a lock held
+        let mut reader = self.term.lock_read()
+            .unwrap_or_else(PoisonError::into_inner);
+        let mut writer = self.term.lock_write()
+            .unwrap_or_else(PoisonError::into_inner);
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
         // The screen is left even if the first step has failed
-        if let Err(e) = res.and(self.term.exit_screen()) {
+        if let Err(e) = res.and(writer.exit_screen()) {
             report_error("failed to restore terminal", &e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4cc38e0..45e87a4 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -9,7 +9,7 @@ use std::str::from_utf8;
 use std::sync::atomic::{AtomicPtr, Ordering};
 #[cfg(not(mortal_verif))]
 use std::sync::atomic::AtomicUsize;
-use std::sync::{LockResult, TryLockResult};
+use std::sync::{LockResult, PoisonError, TryLockResult};
 #[cfg(not(mortal_verif))]
 use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
@@ -308,7 +308,12 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // The terminal is restored even if a thread panicked with the lock held
+        let res = self.lock_write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             report_error("failed to restore terminal", &e);
         }
 
@@ -798,7 +803,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 93ae66cb93c51b4dcf06010e53fc665f9bf32ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 25/29] fix: do not take the write lock to read a resize

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 45e87a4..ab7f736 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -665,7 +665,8 @@ impl<'a> TerminalReadGuard<'a> {
                 self.resume()?;
             }
             Signal::Resize => {
-                let size = self.term.size()?;
+                // The write lock may be held by the current thread
+                let size = get_winsize(self.term.out_fd)?;
                 return Ok(Some(Event::Resize(size)));
             }
             _ => ()
-- 
2.43.0


From 5d18d0432054632b94684f9be7c69d4b2c9d0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 26/29] fix: decode a sequence that is split by the size of a
 read

Input longer than the space in the read buffer (128 bytes) could be cut
within a key sequence or mouse report, whose parts were then decoded as
Escape and characters.
---
 src/unix/terminal.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index ab7f736..77e66d7 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -535,12 +535,12 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
-        if let Some(ev) = self.try_read()? {
+        if let Some(ev) = self.read_buffered()? {
             return Ok(Some(ev));
         }
 
         match self.read_into_buffer(timeout)? {
-            Some(Event::Raw(_)) => self.try_read(),
+            Some(Event::Raw(_)) => self.read_buffered(),
             Some(Event::Signal(sig)) => {
                 if let Some(ev) = self.handle_signal(sig)? {
                     Ok(Some(ev))
@@ -636,6 +636,24 @@ impl<'a> TerminalReadGuard<'a> {
         }
     }
 
+    fn read_buffered(&mut self) -> io::Result<Option<Event>> {
+        // A read may have ended within a sequence;
+        // use what is available of its remaining part.
+        while is_incomplete(&self.reader.in_buffer, &self.term.sequences) {
+            match self.read_into_buffer(Some(Duration::from_secs(0))) {
+                Ok(Some(Event::Raw(n))) if n != 0 => (),
+                Ok(Some(Event::Signal(sig))) => {
+                    if let Some(ev) = self.handle_signal(sig)? {
+                        return Ok(Some(ev));
+                    }
+                }
+                _ => break
+            }
+        }
+
+        self.try_read()
+    }
+
     fn try_read(&mut self) -> io::Result<Option<Event>> {
         let in_buffer = &mut self.reader.in_buffer;
 
@@ -1378,6 +1396,26 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
     Ok(Some((res, n)))
 }
 
+// Returns whether `buf` is the beginning of a sequence which may be continued
+// by further input.
+fn is_incomplete(buf: &[u8], sequences: &SeqMap) -> bool {
+    // All sequences are ASCII
+    let s = match ascii_str(buf) {
+        Some(s) if !s.is_empty() => s,
+        _ => return false
+    };
+
+    match sequences.find(s) {
+        FindResult::Incomplete | FindResult::Undecided(_) => true,
+        _ => match sequences.get(XTERM_MOUSE_INTRO) {
+            Some(SeqData::XTermMouse) if s.starts_with(XTERM_MOUSE_INTRO) =>
+                s[XTERM_MOUSE_INTRO.len()..].bytes()
+                    .all(|b| b == b';' || b.is_ascii_digit()),
+            _ => false
+        }
+    }
+}
+
 fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
     let orig_len = buf.len();
 
-- 
2.43.0


From c86484c260129480f2632846cef0d84b2061305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 27/29] verif: announce the acquisition of a lock, too

---
 src/verif.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index 50c7c0e..0849e6f 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -18,6 +18,8 @@ pub enum SyncOp {
     TryLock,
     /// The lock could not be acquired; the thread must wait for its release.
     Contended,
+    /// A lock was acquired.
+    Locked,
     /// A lock was released.
     Unlock,
     /// The thread is about to perform an atomic operation.
@@ -69,6 +71,7 @@ impl<T> Mutex<T> {
     }
 
     fn guard<'a>(&self, inner: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        announce(SyncOp::Locked, self.addr());
         MutexGuard{inner: ManuallyDrop::new(inner), addr: self.addr()}
     }
 
-- 
2.43.0


From e8a87a53e166bd2d26df6867e4aea9578cd0f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 28/29] fix: do not panic on a screen without lines or columns

---
 src/buffer.rs        | 2 +-
 src/terminal.rs      | 6 +++---
 src/unix/terminal.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6817d76..c386c77 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -557,7 +557,7 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..d3614f6 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 77e66d7..6abf61c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -809,7 +809,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0


From 60a7d2da353506688c76a7ff7bc6e9e2a68d86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 29/29] fix: do not write the delays of terminfo entries to the
 terminal

---
 src/unix/terminal.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 6abf61c..e1cc788 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1147,10 +1147,15 @@ impl<'a> TerminalWriteGuard<'a> {
 
     fn expand<T: AsRef<[u8]>>(&mut self, exp: Expansion<T>) -> io::Result<()> {
         let writer = &mut *self.writer;
-        exp
+        let start = writer.out_buffer.len();
+
+        let res = exp
             .with(&mut writer.context)
             .to(&mut writer.out_buffer)
-            .map_err(ti_to_io)
+            .map_err(ti_to_io);
+
+        remove_padding(&mut writer.out_buffer, start);
+        res
     }
 }
 
@@ -1678,6 +1683,35 @@ fn take_signal() -> Option<Signal> {
     taken.and_then(|(_, &sig)| conv_signal(sig))
 }
 
+// Removes the delays which a `terminfo` entry specifies, e.g. `$<5>`,
+// from the sequence beginning at `start`. These are not sent to a terminal.
+fn remove_padding(buf: &mut Vec<u8>, mut start: usize) {
+    while let Some(pos) = buf[start..].windows(2).position(|w| w == b"$<") {
+        let begin = start + pos;
+
+        start = match padding_len(&buf[begin..]) {
+            Some(n) => {
+                buf.drain(begin..begin + n);
+                begin
+            }
+            None => begin + 2
+        };
+    }
+}
+
+// Returns the length of the delay at the beginning of `seq`, if it is valid;
+// a number of at most one decimal place, followed by `*`, `/`, or both.
+fn padding_len(seq: &[u8]) -> Option<usize> {
+    let end = seq.iter().position(|&b| b == b'>')?;
+    let spec = seq[2..end].iter().take_while(|&b| b.is_ascii_digit() || *b == b'.');
+
+    match spec.count() {
+        0 => None,
+        n if seq[2 + n..end].iter().all(|&b| b == b'*' || b == b'/') => Some(end + 1),
+        _ => None
+    }
+}
+
 // Returns whether an escape sequence begins by resetting all attributes
 fn resets_attributes(seq: &[u8]) -> bool {
     seq.starts_with(b"\x1b[m") || seq.starts_with(b"\x1b[0")
-- 
2.43.0

