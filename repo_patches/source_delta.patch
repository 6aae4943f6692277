From 507223602824b8c3b068fc60d8b4afecdbab9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 1/9] fix: idle padding no longer desynchronizes the modelled
 screen

When out of work the encoder stored the target byte at (0, 0) without
updating its memory maps.  If the screen held a different (perceptually
equivalent) byte there, e.g. 0x80 instead of 0x00, the encoder's model of
the player's screen was wrong from then on.
---
 transcoder/video.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..8611e23 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -245,8 +245,9 @@ class Video:
         #             target_pixelmap.packed[diff_p, diff_o]))
         #     assert False
 
-        # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # If we run out of things to do, pad forever with what is already on
+        # the screen, so that our model of the screen remains correct
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From d89accb6ad850e997398988d583dd8321cb762fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 2/9] fix: use all 4 offsets of an opcode

The search for 3 additional offsets stopped after 2, so the fourth store
of every opcode was wasted on repeating the first.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index 8611e23..51ba3cf 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From 384289cd992101ad1cb6f51ccee01ee801c26dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 3/9] fix: audio normalization of silence

Silent (or >99% silent) audio gave an infinite normalization factor, and
0 * inf = NaN turned every silent sample into the most negative value.
---
 transcoder/audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..b2d7fed 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -78,6 +78,9 @@ class Audio:
                     break
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
+        if norm == 0:
+            # (Almost) entirely silent, nothing to normalize
+            return 1.
 
         return 16384. / norm
 
-- 
2.43.0


From bde45db2e7569932d7e28290dc493d08de59ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 4/9] fix: report frame conversion failures instead of hanging

An exception in the worker thread ended it without a sentinel, so frames()
waited on the queue forever.
---
 transcoder/frame_grabber.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..4434821 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -121,10 +121,14 @@ class FileFrameGrabber(FrameGrabber):
                 _dhgr_decode if self.video_mode == VideoMode.DHGR else
                 _hgr_decode
             )
-            for _idx, _frame in enumerate(self._frame_grabber()):
-                q.put(decode(_idx, _frame))
-
-            q.put((None, None))
+            try:
+                for _idx, _frame in enumerate(self._frame_grabber()):
+                    q.put(decode(_idx, _frame))
+            except Exception as e:
+                # Let the consumer know, otherwise it would wait forever
+                q.put((e, None))
+            else:
+                q.put((None, None))
 
         t = threading.Thread(target=worker, daemon=True)
         t.start()
@@ -133,6 +137,8 @@ class FileFrameGrabber(FrameGrabber):
             main, aux = q.get()
             if main is None:
                 break
+            if isinstance(main, Exception):
+                raise main
 
             main_map = screen.FlatMemoryMap(
                 screen_page=1, data=main).to_memory_map()
-- 
2.43.0


From 4f62dc91d02aab4aeec474558780661b911b56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 5/9] fix: soft switch status is reported in bit 7

0x80 & True is always 0.
---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From bbbff2e6bb01653544805a9e891dfb919adbcf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 6/9] fix: writing 0 to an unmapped I/O address is a write, not
 a read

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index 4f4220f..8d4af52 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -129,7 +129,7 @@ class Machine:
                 print("**** IO EVENT with unexpected mode: %s" % access_mode)
                 raise TrapException(address, access_mode)
         except KeyError:
-            if value:
+            if value is not None:
                 raise TrapException(
                     address, 'Wrote %02X ("%s")' % (value, chr(value)))
             else:
-- 
2.43.0


From e1668e52c0a97495c7c7ca019ac1f0601144ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 7/9] fix: setting the W5100 address high byte keeps all of the
 low byte

---
 simulator/apple2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..ac73112 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,7 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0xff)
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 97f001f5435e6a8616bcc3255fe57584ebbdb3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 8/9] fix: load the last byte of each ROM image in the
 simulator

Slices ended one short, so $C6FF and $FFFF (high byte of the break vector)
stayed zero.
---
 simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulator/simulator.py b/simulator/simulator.py
index de20ff6..a21f1b1 100644
--- a/simulator/simulator.py
+++ b/simulator/simulator.py
@@ -16,10 +16,10 @@ def main():
     # TODO: other slot ROMs; alternate Cx ROMs
 
     # Slot 6 ROM
-    a2.memory.write(0xc600, rom[0x0600:0x6ff])
+    a2.memory.write(0xc600, rom[0x0600:0x700])
 
     # Main ROM
-    a2.memory.write(0xd000, rom[0x5000:0x7fff])
+    a2.memory.write(0xd000, rom[0x5000:0x8000])
 
     # Load video player
 
-- 
2.43.0


From 660f9192e3dcb68e2dd8807ff4c14908158aec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 9/9] fix: read audio in whole frames

Audio decoded by ffmpeg arrives in blocks of 8192 bytes, whatever the
size asked for.  A 5.1 sound track's frames do not fit in whole, which
raised ValueError; otherwise every short block was resampled by itself,
with rounding of its length making the sound drift.
---
 transcoder/audio.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index b2d7fed..5f8372f 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -44,6 +44,27 @@ class Audio:
         self.normalization = (
                 normalization or self._normalization())  # type: float
 
+    @staticmethod
+    def _blocks(f, frames=128 * 1024) -> Iterator[bytes]:
+        """Read audio stream in blocks of the given number of frames.
+
+        Some audioread backends choose their own block size, which need not
+        be a whole number of frames.
+
+        :param f:
+        :param frames:
+        :return:
+        """
+        size = frames * f.channels * 2
+        raw = bytearray()
+        for buf in f.read_data(frames):
+            raw.extend(buf)
+            while len(raw) >= size:
+                yield bytes(raw[:size])
+                del raw[:size]
+        if raw:
+            yield bytes(raw)
+
     def _decode(self, f, buf) -> np.array:
         """
 
@@ -72,7 +93,7 @@ class Audio:
         """
         raw = bytearray()
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data():
+            for buf in self._blocks(f, 1024):
                 raw.extend(bytearray(buf))
                 if len(raw) > read_bytes:
                     break
@@ -90,7 +111,7 @@ class Audio:
         :return:
         """
         with audioread.audio_open(self.filename) as f:
-            for buf in f.read_data(128 * 1024):
+            for buf in self._blocks(f):
                 a = self._decode(f, buf)
 
                 a /= 16384  # normalize to -1.0 .. 1.0
-- 
2.43.0

