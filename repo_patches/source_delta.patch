From 2692ae82975850cdd40a3d8cb57ea6738422794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:08 +0000
Subject: [PATCH 01/88] fix: roll back to the original contents when a write,
 delete or shred fails

---
 atrcopy/diskimages.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..fb42672 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -322,7 +322,9 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        # slices of numpy arrays are views, so copies are needed to be able to
+        # restore the original contents
+        state = self.bytes[:].copy(), self.style[:].copy()
         return state
 
     def rollback_transaction(self, state):
@@ -353,7 +355,7 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -387,7 +389,7 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -400,7 +402,7 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
-- 
2.43.0


From 53d4fa50151b3f6fe057a4e4dd1297966c6c5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:55 +0000
Subject: [PATCH 02/88] fix: refuse a 65th file instead of writing past the
 Atari DOS directory

---
 atrcopy/ataridos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..a51dc50 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,11 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    max_dirents = 64
+
+    def __init__(self, header):
+        Directory.__init__(self, header, self.max_dirents)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From 85f07519129bb0543c06ad2599b5fa12eefe2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 03/88] fix: update the free sector count in the Atari DOS VTOC

---
 atrcopy/ataridos.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index a51dc50..a1bdeff 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -36,12 +36,17 @@ class AtariDosVTOC(VTOC):
         self.vtoc1 = segments[0].data
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
+        self.orig_free_sectors = self.num_free_sectors
         if _xd: log.debug("vtoc before:\n%s" % str(self))
 
     def calc_bitmap(self):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        # keep the free sector count in step with the bit map
+        count = self.vtoc1[0x03:0x05].view(dtype='<u2')
+        count[0] = (int(count[0]) + self.num_free_sectors - self.orig_free_sectors) & 0xffff
+        self.orig_free_sectors = self.num_free_sectors
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From 447103c05d5eb59745b0dc77feef1efa74f601f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:09 +0000
Subject: [PATCH 04/88] fix: pad Atari DOS file names with spaces and keep
 other directory entries as they are

---
 atrcopy/ataridos.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index a1bdeff..0613f28 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -101,6 +101,7 @@ class AtariDosDirent(Dirent):
         self.starting_sector = 0
         self.basename = b''
         self.ext = b''
+        self.raw_name = None
         self.is_sane = True
         self.current_sector = 0
         self.current_read = 0
@@ -160,17 +161,23 @@ class AtariDosDirent(Dirent):
         self.starting_sector = int(values[2])
         self.basename = bytes(values[3]).rstrip()
         self.ext = bytes(values[4]).rstrip()
+        self.raw_name = data[5:16].copy()
         self.is_sane = self.sanity_check(image)
 
     def encode_dirent(self):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
-        flag = (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        flag = (self.flag & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        if self.raw_name is not None:
+            # don't change the names of files that are already on the disk
+            data[5:16] = self.raw_name
+        else:
+            # unused characters are filled with spaces
+            values[3] = b'%-8s' % self.basename
+            values[4] = b'%-3s' % self.ext
         return data
 
     def mark_deleted(self):
@@ -236,9 +243,9 @@ class AtariDosDirent(Dirent):
         if b'.' in filename:
             filename, ext = filename.split(b'.', 1)
         else:
-            ext = b'   '
-        self.basename = b'%-8s' % filename[0:8]
-        self.ext = ext
+            ext = b''
+        self.basename = filename[0:8]
+        self.ext = ext[0:3]
         self.file_num = index
         self.dos_2 = True
         self.in_use = True
-- 
2.43.0


From 1e31fa62a6bdc9ccf4ed4278326e6be9830dba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:16 +0000
Subject: [PATCH 05/88] fix: directories of double density Atari disks use only
 the first half of each sector

---
 atrcopy/ataridos.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 0613f28..038f7f5 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -70,10 +70,19 @@ class AtariDosDirectory(Directory):
         if _xd: log.debug("encoded dirent: %s" % data)
         return data
 
+    def store_encoded(self, data):
+        # only the first 128 bytes of each sector are used, even in double density
+        if self.current_sector.ptr >= 128:
+            self.sectors.append(self.current_sector)
+            self.current_sector = self.get_dirent_sector()
+        Directory.store_encoded(self, data)
+
     def set_sector_numbers(self, image):
         num = 361
         for sector in self.sectors:
             sector.sector_num = num
+            raw, _, _ = image.get_raw_bytes(num)
+            sector.data[128:] = raw[128:]
             num += 1
 
 
@@ -567,7 +576,8 @@ class AtariDosDiskImage(DiskImageBase):
             self.unused_sectors += extra_free
 
     def get_directory(self, directory=None):
-        dir_bytes, style = self.get_sectors(361, 368)
+        # only the first 128 bytes of each sector are used, even in double density
+        dir_bytes = np.concatenate([self.get_sectors(n)[0][0:128] for n in range(361, 369)])
         i = 0
         num = 0
         files = []
@@ -663,6 +673,9 @@ class AtariDosDiskImage(DiskImageBase):
             segment.set_comment_at(index + 0x05, "FILE #%d: Filename" % filenum)
             segment.set_comment_at(index + 0x0d, "FILE #%d: Extension" % filenum)
             index += 16
+            if index % self.header.sector_size == 128:
+                # only the first 128 bytes of each sector are used
+                index += self.header.sector_size - 128
         segments.append(segment)
         return segments
 
-- 
2.43.0


From f4570dfdfd7f961d2c07152c316aba0f2adb03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:25 +0000
Subject: [PATCH 06/88] fix: store empty files and read them back as empty

---
 atrcopy/diskimages.py | 3 ++-
 atrcopy/segments.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index fb42672..8d1c764 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -365,7 +365,8 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        # an empty file still occupies a sector
+        while index < len(data) or len(sectors) == 0:
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..41bb486 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1090,7 +1090,7 @@ class DefaultSegment:
 
 class EmptySegment(DefaultSegment):
     def __init__(self, rawdata, name="", error=None):
-        DefaultSegment.__init__(self, rawdata, 0, name, error)
+        DefaultSegment.__init__(self, rawdata[0:0], 0, name, error)
 
     def __str__(self):
         s = "%s (empty file)" % (self.name, )
-- 
2.43.0


From ef6f03ab78cee4665d4cf35dc0f04288b690bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 07/88] fix: position of the 128 byte boot sectors of double
 density disks

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 038f7f5..ce7b812 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -443,7 +443,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From 4b4f853016fc61e4907138a93ed3aa30adf53439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:40 +0000
Subject: [PATCH 08/88] fix: report an invalid sector number with the library's
 own error

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 8d1c764..e0a71ab 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From 588cdfedea9dea63beb6e4bcb3115a46a0db7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:52 +0000
Subject: [PATCH 09/88] fix: disk images starting with zeros are not empty lzma
 containers

---
 atrcopy/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..221af53 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -27,6 +27,10 @@ class DiskImageContainer:
             unpacked = self.unpack_bytes(raw)
         except EOFError as e:
             raise errors.InvalidContainer(e)
+        if not unpacked:
+            # e.g. a disk image starting with zeros looks like an empty lzma
+            # stream
+            raise errors.InvalidContainer("No data in container")
         return to_numpy(unpacked)
 
     def unpack_bytes(self, byte_data):
-- 
2.43.0


From 06dbb92a6a60cfb3ed56d7e29bcaea826be836c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:38 +0000
Subject: [PATCH 10/88] fix: never delete an entry that is already deleted in
 place of the live file

---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From 1b76bd8ecb8095797d7694923efe6781f575cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:15 +0000
Subject: [PATCH 11/88] fix: unlocked text files don't end the DOS 3.3 catalog

---
 atrcopy/dos33.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..f6f87a6 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -469,7 +469,9 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.track == 0 and dirent.flag == 0:
+                    # an unused entry marks the end of the catalog
+                    sector = 0
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 0beb83a7bc95c8c4881569f6074682353a9dbe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:22 +0000
Subject: [PATCH 12/88] fix: keep 30 character names, lock bits and types of
 DOS 3.3 catalog entries

---
 atrcopy/dos33.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index f6f87a6..0af6221 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -166,6 +166,7 @@ class Dos33Dirent(Dirent):
         self.track = 0
         self.sector = 0
         self.filename = ""
+        self.raw_name = None
         self.num_sectors = 0
         self.is_sane = True
         self.current_sector_index = 0
@@ -239,8 +240,11 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        self.locked = (values[2] & 0x80) > 0
+        self.raw_name = data[3:0x21].copy()
+        # the track number replaces the last character in deleted entries
+        n = 0x20 if self.deleted else 0x21
+        self.filename = (data[3:n] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
@@ -249,10 +253,14 @@ class Dos33Dirent(Dirent):
         values = data.view(dtype=self.format)[0]
         values[0] = 0xff if self.deleted else self.track
         values[1] = self.sector
-        values[2] = self.flag
-        n = min(len(self.filename), 30)
-        data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
-        data[3+n:] = ord(' ') | 0x80
+        values[2] = self._file_type | (0x80 * int(self.locked))
+        if self.raw_name is not None:
+            # don't change the names of files that are already on the disk
+            data[3:0x21] = self.raw_name
+        else:
+            n = min(len(self.filename), 30)
+            data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
+            data[3+n:] = ord(' ') | 0x80
         if self.deleted:
             data[0x20] = self.track
         values[4] = self.num_sectors
-- 
2.43.0


From 49085c65d03fe3f64e7b4d88ec47e8363805121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:31 +0000
Subject: [PATCH 13/88] fix: use the last sector of the DOS 3.3 catalog

---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 0af6221..88b9a12 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -574,12 +574,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        elif sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From 815656b8738b738d01a15c033bf63a35ad5c2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:41 +0000
Subject: [PATCH 14/88] fix: DOS 3.3 files with no data or with unwritten
 sectors don't include the boot sector

---
 atrcopy/dos33.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 88b9a12..75d5ad3 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -314,7 +314,11 @@ class Dos33Dirent(Dirent):
             sector_map.extend(sector.get_tslist())
             tslist.append(sector)
             sector_num = sector.next_sector_num
-        self.sector_map = sector_map[0:self.num_sectors - len(tslist)]
+        # unused entries at the end are zero; zeros before that are sectors
+        # never written in a random access file
+        while sector_map and sector_map[-1] == 0:
+            sector_map.pop()
+        self.sector_map = sector_map
         self.track_sector_list = tslist
         return tslist
 
@@ -323,6 +327,8 @@ class Dos33Dirent(Dirent):
         sectors = BaseSectorList(image.header)
         sectors.extend(self.track_sector_list)
         for sector_num in self.sector_map:
+            if sector_num == 0:
+                continue
             sector = WriteableSector(image.header.sector_size, None, sector_num)
             sectors.append(sector)
         return sectors
@@ -582,14 +588,24 @@ class Dos33DiskImage(DiskImageBase):
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
         return sector_num, next_sector
 
+    def get_file(self, dirent):
+        dirent.start_read(self)
+        if 0 not in dirent.sector_map:
+            return DiskImageBase.get_file(self, dirent)
+        # sectors never written in a random access file read as zeros
+        blank = np.zeros([self.header.sector_size], dtype=np.uint8)
+        sectors = [self.get_raw_bytes(s)[0] if s > 0 else blank for s in dirent.sector_map]
+        return np.concatenate(sectors).tobytes()
+
     def get_file_segment(self, dirent):
         byte_order = []
         dirent.start_read(self)
-        while True:
+        while dirent.current_sector_index < len(dirent.sector_map):
+            if dirent.sector_map[dirent.current_sector_index] == 0:
+                dirent.current_sector_index += 1
+                continue
             bytes, last, pos, size = dirent.read_sector(self)
             byte_order.extend(list(range(pos, pos + size)))
-            if last:
-                break
         if len(byte_order) > 0:
             name = "%s %03d %s" % (dirent.summary, dirent.num_sectors, dirent.filename)
             verbose_name = "%s (%d sectors, first@%d) %s" % (dirent.filename, dirent.num_sectors, dirent.sector_map[0], dirent.verbose_info)
-- 
2.43.0


From a39aaae691d55b521ba73d5ec66b1aefc8f87111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:50 +0000
Subject: [PATCH 15/88] fix: don't loop forever on circular catalogs,
 track/sector lists, MyDOS files and SpartaDOS sector maps

---
 atrcopy/ataridos.py  |  6 +++++-
 atrcopy/dos33.py     | 12 +++++++++++-
 atrcopy/spartados.py |  4 ++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index ce7b812..d8ccb3e 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -265,7 +265,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (int(raw[-3]) << 8) + int(raw[-2])
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 75d5ad3..37f59b2 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -305,8 +305,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
@@ -475,8 +479,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
@@ -549,8 +557,10 @@ class Dos33DiskImage(DiskImageBase):
         r = self.rawdata
         segments = []
         sector = self.header.first_directory
-        while sector > 0:
+        seen = set()
+        while sector > 0 and sector not in seen:
             self.assert_valid_sector(sector)
+            seen.add(sector)
             if _xd: log.debug("loading directory segment from catalog sector %d" % sector)
             raw, pos, size = self.get_raw_bytes(sector)
             byte_order.extend(list(range(pos, pos + size)))
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..95307b3 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,7 +209,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From f35c8ea68b57f34d52b125a9bc8744f5a1576c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:23 +0000
Subject: [PATCH 16/88] fix: unsupported operations raise the library's
 NotImplementedError instead of AttributeError

---
 atrcopy/errors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/errors.py b/atrcopy/errors.py
index f27abee..506ed4f 100644
--- a/atrcopy/errors.py
+++ b/atrcopy/errors.py
@@ -73,3 +73,7 @@ class UnsupportedContainer(AtrError):
 
 class InvalidContainer(AtrError):
     pass
+
+
+class NotImplementedError(AtrError):
+    pass
-- 
2.43.0


From 0c177a9a35be205164491b26790b0bb08ce4c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:29 +0000
Subject: [PATCH 17/88] fix: add saves every file that was added, and finds
 existing files by their stored name

---
 atrcopy/__init__.py   |  9 ++++++---
 atrcopy/diskimages.py | 12 ++++++++++++
 atrcopy/dummy.py      |  3 +++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..958951b 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -129,10 +129,13 @@ def extract_files(image, files):
 
 
 def save_file(image, name, filetype, data):
+    # names may be shortened when stored, so look for the stored name
+    stored_name = image.get_stored_filename(name)
     try:
-        dirent = image.find_dirent(name)
+        dirent = image.find_dirent(stored_name)
         if options.force:
-            image.delete_file(name)
+            if not options.dry_run:
+                image.delete_file(stored_name)
         else:
             print("skipping %s, use -f to overwrite" % (name))
             return False
@@ -154,7 +157,7 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        changed = save_file(image, name, filetype, data) or changed
     if changed:
         image.save()
 
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index e0a71ab..b9dee1c 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -336,6 +336,18 @@ class DiskImageBase(Bootable):
         vtoc = self.vtoc_class(self.header, vtoc_segments)
         return vtoc
 
+    def get_stored_filename(self, filename):
+        """Get the name that a new file will be listed under, which may be
+        shorter than the requested name.
+        """
+        try:
+            cls = self.directory_class(self.header).dirent_class
+        except errors.NotImplementedError:
+            return filename
+        dirent = cls(None)
+        dirent.set_values(filename, "", 0)
+        return cls(self, 0, dirent.encode_dirent()).filename
+
     def write_file(self, filename, filetype, data):
         """Write data to a file on disk
 
diff --git a/atrcopy/dummy.py b/atrcopy/dummy.py
index 7482d52..2c5b469 100644
--- a/atrcopy/dummy.py
+++ b/atrcopy/dummy.py
@@ -24,6 +24,9 @@ class LocalFilesystemImage(DiskImageBase):
         # the filesystem.
         pass
 
+    def get_stored_filename(self, name):
+        return name
+
     def find_dirent(self, name):
         path = os.path.join(self.path, name)
         if os.path.exists(path):
-- 
2.43.0


From c6216bb06f2d295b7a67460b063cfd8293813d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:54 +0000
Subject: [PATCH 18/88] fix: extract stays inside the output directory and
 doesn't create it in a dry run

---
 atrcopy/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 958951b..69630a4 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -97,6 +97,17 @@ def find_diskimage(filename, verbose=False):
     return parser, mime
 
 
+def get_local_filename(name):
+    """Names on disk images may contain any character, but can't be allowed to
+    refer to other directories of the local filesystem.
+    """
+    for c in ["/", "\\", "\0"]:
+        name = name.replace(c, "_")
+    if name in ["", ".", ".."]:
+        name = "_" + name
+    return name
+
+
 def extract_files(image, files):
     if options.all:
         files = image.files
@@ -106,11 +117,11 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        output = get_local_filename(dirent.filename)
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not os.path.exists(options.dir) and not options.dry_run:
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
-- 
2.43.0


From 26b4f5a00f07dd157814f5a5d8124665c64a624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:01 +0000
Subject: [PATCH 19/88] fix: boot obeys --dry-run and replaces existing disk
 images only with -f

---
 atrcopy/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 69630a4..7140d15 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -305,8 +305,12 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     segments, run_addr = assemble_segments(source_files, data_files, obj_files, run_addr)
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
+        if os.path.exists(image_name) and not options.force:
+            print("skipping %s, use -f to overwrite" % (image_name))
+            return
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From 4e2f8c0733a5216a06d85f82016e5c143d0fa6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:08 +0000
Subject: [PATCH 20/88] fix: delete removes locked files only with -f

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 7140d15..1cd0bdd 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -181,6 +181,9 @@ def remove_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
+        if getattr(dirent, "locked", False) and not options.force:
+            print("skipping %s, file is locked. Use -f to remove" % name)
+            continue
         print("removing %s from %s" % (name, image))
         if not options.dry_run:
             image.delete_file(name)
-- 
2.43.0


From 66f29a39206fb746e483864e3834d13b9816c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:02 +0000
Subject: [PATCH 21/88] fix: Apple BSAVE files can be parsed

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 37f59b2..b87f7fd 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -668,7 +668,7 @@ class Dos33BinFile(Bootable):
             s[pos:pos + 4] = get_style_bits(data=True)
             data = b[pos + 4:pos + 4 + count]
             if len(data) == count:
-                name = "BSAVE data" % start
+                name = "BSAVE data $%04x" % start
             else:
                 raise errors.InvalidBinaryFile(f"Incomplete BSAVE data: expected {count}, loaded {len(data)}")
             self.segments.append(ObjSegment(r[pos + 4:pos + 4 + count], pos, pos + 4, start, start + len(data), name))
-- 
2.43.0


From 6c5b492c3eef9261b973ad8eb63b5c3286f103ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:10 +0000
Subject: [PATCH 22/88] fix: refuse to create executables from segments that
 are empty or outside the address space

---
 atrcopy/executables.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index fc1ffb1..a151a5c 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -12,7 +12,21 @@ except NameError:
     _xd = False
 
 
+def check_segments(segments):
+    """Executables can't be created from segments that don't have any data or
+    that don't fit in the 64k address space
+    """
+    if len(segments) == 0:
+        raise errors.InvalidBinaryFile("No segments to create executable")
+    for s in segments:
+        if len(s) == 0:
+            raise errors.InvalidBinaryFile("Segment at $%04x contains no data" % s.origin)
+        if s.origin < 0 or s.origin + len(s) > 0x10000:
+            raise errors.InvalidBinaryFile("Segment at $%04x doesn't fit in 64k address space" % s.origin)
+
+
 def get_xex(segments, run_addr=None):
+    check_segments(segments)
     segments_copy = [s for s in segments]  # don't affect the original list!
     main_segment = None
     sub_segments = []
@@ -63,6 +77,7 @@ def get_xex(segments, run_addr=None):
 
 
 def get_bsave(segments, run_addr=None):
+    check_segments(segments)
     # Apple 2 executables get executed at the first address loaded. If the
     # run_addr is not the first byte of the combined data, have to create a
     # new 3-byte segment with a "JMP run_addr" to go at the beginning
@@ -83,6 +98,8 @@ def get_bsave(segments, run_addr=None):
         if not found:
             raise errors.InvalidBinaryFile("Run address points outside data segments")
         origin -= 3
+        if origin < 0:
+            raise errors.InvalidBinaryFile("No room for jump to run address before first segment")
         hi, lo = divmod(run_addr, 256)
         raw = SegmentData([0x4c, lo, hi])
         all_segments = [DefaultSegment(raw, origin=origin)]
@@ -90,6 +107,8 @@ def get_bsave(segments, run_addr=None):
     else:
         all_segments = segments
     size = last - origin
+    if size > 0xffff:
+        raise errors.InvalidBinaryFile("BSAVE data limited to 65535 bytes")
     image = np.zeros([size + 4], dtype=np.uint8)
     words = image[0:4].view(dtype="<u2")  # always little endian
     words[0] = origin
-- 
2.43.0


From 1d08503026f6241dd54f897657f39b3507115092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:18 +0000
Subject: [PATCH 23/88] fix: Atari boot disks use the requested run address

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From 34d25de232dac4770801c4517bf2ac8b1a04457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:24 +0000
Subject: [PATCH 24/88] fix: refuse executables that are too large for the
 KBoot loader

---
 atrcopy/kboot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index d602f03..de4e91f 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -96,6 +96,8 @@ def insert_bytes(data, offset, string, color):
 def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari user"):
     sec_size = 128
     xex_size = len(bytes)
+    if xex_size > 0xffff:
+        raise errors.InvalidBinaryFile("Boot loader limited to executables of 65535 bytes; size=%d" % xex_size)
     num_sectors = (xex_size + sec_size - 1) // sec_size
     padded_size = num_sectors * sec_size
     if xex_size < padded_size:
-- 
2.43.0


From 9cc07863c7b576e33f8b98fc1c6c346a67877f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:28 +0000
Subject: [PATCH 25/88] fix: Apple boot disks without a run address start at
 the first segment

---
 atrcopy/standard_delivery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..311d45c 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -66,7 +66,9 @@ class StandardDeliveryImage(DiskImageBase):
     def create_boot_image(cls, segments, run_addr=None):
         raw = SegmentData(np.zeros([143360], dtype=np.uint8))
         dsk = cls(raw, create=True)
-        if run_addr is None:
+        if not segments:
+            raise errors.InvalidBinaryFile("No segments to create boot disk")
+        if not run_addr:
             run_addr = segments[0].origin
 
         chunks = []
-- 
2.43.0


From 03c302e7f961f97397ec187fce26fba7bc2b6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:34 +0000
Subject: [PATCH 26/88] fix: Standard Delivery disk images can be printed

---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 311d45c..ca9577f 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -23,7 +23,7 @@ class StandardDeliveryHeader(BaseHeader):
             raise errors.InvalidDiskImage("No %s boot header" % self.file_format)
 
     def __str__(self):
-        return "Standard Delivery Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
+        return "%s Boot Disk (size=%d (%dx%dB)" % (self.file_format, self.image_size, self.max_sectors, self.sector_size)
 
     def check_size(self, size):
         if size != 143360:
-- 
2.43.0


From d3cc685b5c26d6606afd60a5b48df2dd238915ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:41 +0000
Subject: [PATCH 27/88] fix: segments on Apple boot disks don't overwrite
 others on the same page

---
 atrcopy/standard_delivery.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ca9577f..99e87d5 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -72,6 +72,8 @@ class StandardDeliveryImage(DiskImageBase):
             run_addr = segments[0].origin
 
         chunks = []
+        # contents of memory, because segments may share a page
+        memory = np.zeros([0x10000], dtype=np.uint8)
 
         for s in segments:
             # find size in 256 byte chunks that start on a page boundary
@@ -84,8 +86,9 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
-            chunk = np.zeros([size], dtype=np.uint8)
-            chunk[padding:padding + len(s)] = s[:]
+            start = chunk_start * 256
+            memory[start + padding:start + padding + len(s)] = s[:]
+            chunk = memory[start:start + size].copy()
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
             log.debug(" last chunk=%s" % str(chunks[-1]))
-- 
2.43.0


From a0b93a2ffff813619f168dd10e97d7ce9f490d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:51 +0000
Subject: [PATCH 28/88] fix: refuse segments that the Apple boot loader can't
 load

---
 atrcopy/standard_delivery.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 99e87d5..fc0df7f 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -87,6 +87,8 @@ class StandardDeliveryImage(DiskImageBase):
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
             start = chunk_start * 256
+            if start == 0 or start + size > 0xc000 or (start <= 0x800 and start + size > 0x800):
+                raise errors.InvalidBinaryFile("Segment at $%04x can't be loaded by %s boot code" % (origin, dsk.header.file_format))
             memory[start + padding:start + padding + len(s)] = s[:]
             chunk = memory[start:start + size].copy()
             chunks.append((chunk_start, chunk, show_hgr))
@@ -174,4 +176,6 @@ def get_fstbt_code(data, address_list, run_addr):
     hi, lo = divmod(run_addr, 256)
     data[pointer:pointer + 2] = (lo, hi)
     address_list.append(0xc0)  # last sector flag
+    if pointer + 2 + len(address_list) > len(data):
+        raise errors.InvalidBinaryFile("Too many segments for boot code")
     data[pointer + 2:pointer + 2 + len(address_list)] = address_list
-- 
2.43.0


From 850e35ab921c984f71bbec1b8c2377c45db7e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:08 +0000
Subject: [PATCH 29/88] fix: refuse run addresses outside the address space on
 Apple boot disks

---
 atrcopy/standard_delivery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index fc0df7f..81f2294 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -70,6 +70,8 @@ class StandardDeliveryImage(DiskImageBase):
             raise errors.InvalidBinaryFile("No segments to create boot disk")
         if not run_addr:
             run_addr = segments[0].origin
+        if run_addr < 0 or run_addr > 0xffff:
+            raise errors.InvalidBinaryFile("Run address outside address space")
 
         chunks = []
         # contents of memory, because segments may share a page
-- 
2.43.0


From 1bb99b566f511dd8092dc8e3b41a314d59308497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 30/88] fix: boot code can be supplied when adding a KBoot
 header

---
 atrcopy/kboot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index de4e91f..76faf09 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -109,8 +109,8 @@ def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari us
     else:
         # don't insert title or author in user supplied bootcode; would have to
         # assume that the user supplied everything desired in their own code!
-        title = ""
-        author = ""
+        title = b""
+        author = b""
     bootsize = np.alen(bootcode)
     v = bootcode[9:11].view(dtype="<u2")
     v[0] = xex_size
-- 
2.43.0


From 63d8dfc9b0ec5aef27c022767261c02a974d86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:26 +0000
Subject: [PATCH 31/88] fix: comments of indexed segments can be listed

---
 atrcopy/segments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 41bb486..87b1266 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1052,12 +1052,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                index = self.get_index_from_base_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From e2fb19ee7120a16120deea3555c1904639e7bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:35 +0000
Subject: [PATCH 32/88] fix: refuse a segment at ffff in Atari executables, its
 header is a marker

---
 atrcopy/executables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index a151a5c..dc90997 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -27,6 +27,9 @@ def check_segments(segments):
 
 def get_xex(segments, run_addr=None):
     check_segments(segments)
+    for s in segments:
+        if s.origin == 0xffff:
+            raise errors.InvalidBinaryFile("Segment at $ffff can't be distinguished from the $ffff marker")
     segments_copy = [s for s in segments]  # don't affect the original list!
     main_segment = None
     sub_segments = []
-- 
2.43.0


From 31b5f5cf65487d4c772bc0d72034cb3d77d8aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:42 +0000
Subject: [PATCH 33/88] fix: refuse negative origins on Apple boot disks

---
 atrcopy/standard_delivery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 81f2294..790ef97 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -89,7 +89,7 @@ class StandardDeliveryImage(DiskImageBase):
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
             start = chunk_start * 256
-            if start == 0 or start + size > 0xc000 or (start <= 0x800 and start + size > 0x800):
+            if start <= 0 or start + size > 0xc000 or (start <= 0x800 and start + size > 0x800):
                 raise errors.InvalidBinaryFile("Segment at $%04x can't be loaded by %s boot code" % (origin, dsk.header.file_format))
             memory[start + padding:start + padding + len(s)] = s[:]
             chunk = memory[start:start + size].copy()
-- 
2.43.0


From 086d8a355df93f103ff05633a57045cc0a10a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:23 +0000
Subject: [PATCH 34/88] fix: positions and base arrays of indexed segments, so
 they can be interleaved

---
 atrcopy/segments.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 87b1266..49a2f2f 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From bf3d3481b8add0cdcd72ff0f387b03d165979965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:33 +0000
Subject: [PATCH 35/88] fix: clearing the data style clears it

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 49a2f2f..0164b1e 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -50,7 +50,7 @@ def get_style_mask(**kwargs):
     selected bits
     """
     bits = get_style_bits(**kwargs)
-    if 'user' in kwargs and kwargs['user']:
+    if kwargs.get('user') or kwargs.get('data'):
         bits |= user_bit_mask
     else:
         bits &= (0xff ^ user_bit_mask)
-- 
2.43.0


From 0f7ceaada76da4d40517ebb575e99c1b700d8a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:42 +0000
Subject: [PATCH 36/88] fix: find_previous finds a range that starts at the
 previous byte

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 0164b1e..63c3d45 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -791,7 +791,7 @@ class DefaultSegment:
     def find_previous(self, index, **kwargs):
         ranges = self.get_style_ranges(**kwargs)
         if len(ranges) > 0:
-            index_tuple = (index - 1, 0)
+            index_tuple = (index, 0)
             match_index = bisect.bisect_left(ranges, index_tuple)
             match_index -= 1
             if match_index < 0:
-- 
2.43.0


From aaf8ae28c770541e1c8a443128ad986d3de30489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:51 +0000
Subject: [PATCH 37/88] fix: containers can be resized more than once

---
 atrcopy/segments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 63c3d45..2384fd2 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -179,8 +179,9 @@ class SegmentData:
     def resize(self, newsize):
         if self.data.base is None:
             try:
-                newdata = np.resize(self.data, (newsize,))
-                newstyle = np.resize(self.style, (newsize,))
+                # np.resize returns a view, but containers must be base arrays
+                newdata = np.resize(self.data, (newsize,)).copy()
+                newstyle = np.resize(self.style, (newsize,)).copy()
             except:
                 raise
             else:
-- 
2.43.0


From 1f0c5e99124d980731e270c7fddaca42a83445b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:59 +0000
Subject: [PATCH 38/88] fix: indexed segments can be compared

---
 atrcopy/segments.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 2384fd2..bc8cf49 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1077,9 +1077,8 @@ class DefaultSegment:
 
     def compare_segment(self, other_segment):
         self.clear_style_bits(diff=True)
-        diff = self.rawdata.data != other_segment.rawdata.data
-        d = diff * np.uint8(diff_bit_mask)
-        self.style |= (diff * np.uint8(diff_bit_mask))
+        diff = self.rawdata.unindexed_data != other_segment.rawdata.unindexed_data
+        self.style[:] |= (diff * np.uint8(diff_bit_mask))
         log.debug("compare_segment: # entries %d, # diffs: %d" % (len(diff), len(np.where(diff == True)[0])))
 
 
-- 
2.43.0


From ec19ecff5cc40a5abc572514007c5ffb48716b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 39/88] fix: parallel raw data of indexed segments

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index bc8cf49..6e98b0c 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -545,7 +545,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From 91c6e7b52b9a14a4145495eba5643b97cd697931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:17 +0000
Subject: [PATCH 40/88] fix: restore indexed segments without any bytes

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 6e98b0c..4ed6537 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -531,7 +531,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From edd58be92d741f1b25aa9377deb70b65ebb2eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 41/88] fix: copy comments between segments of the same data

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 4ed6537..7a6f5e9 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1060,7 +1060,7 @@ class DefaultSegment:
 
         The index offset is the offset into self based on the index of source.
         """
-        for index, comment in source.iter_comments_in_segment():
+        for index, comment in list(source.iter_comments_in_segment()):
             self.set_comment_at(index + index_offset, comment)
 
     def label(self, index, lower_case=True):
-- 
2.43.0


From 2e8b977dfb07f054991bbab84b1508fe6dac151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:57 +0000
Subject: [PATCH 42/88] fix: gzip data with a damaged deflate stream raised
 zlib.error instead of being refused

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 221af53..cca63c5 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -1,6 +1,7 @@
 import gzip
 import bz2
 import lzma
+import zlib
 import io
 
 import numpy as np
@@ -59,7 +60,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From f3d924302ae71a5b75a2c8fd99907bdd08b37a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:04 +0000
Subject: [PATCH 43/88] fix: damaged zip archives raised zipfile errors
 (BadZipFile, ValueError, ...) instead of being refused as a MAME archive

---
 atrcopy/mame.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index 20850f1..e418ad4 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -15,12 +15,18 @@ class MameZipImage(DiskImageBase):
     def __init__(self, rawdata, filename=""):
         self.zipdata = rawdata
         fh = self.zipdata.bufferedio
-        if zipfile.is_zipfile(fh):
+        try:
+            if not zipfile.is_zipfile(fh):
+                raise errors.InvalidDiskImage("Not a MAME zip file")
             with zipfile.ZipFile(fh) as zf:
                 self.check_zip_size(zf)
                 self.create_rawdata(zf)
-        else:
-            raise errors.InvalidDiskImage("Not a MAME zip file")
+        except errors.AtrError:
+            raise
+        except Exception as e:
+            # besides BadZipFile, the zipfile module raises many other errors
+            # on damaged archives: ValueError, EOFError, zlib.error, ...
+            raise errors.InvalidDiskImage("Damaged zip file: %s" % e)
         DiskImageBase.__init__(self, self.rawdata, filename)
 
     def __str__(self):
-- 
2.43.0


From 72ca43376ed191c59b52735af35f10d910c329fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:11 +0000
Subject: [PATCH 44/88] fix: a zip archive without any data raised ValueError

---
 atrcopy/mame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index e418ad4..f8c5ce7 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -56,6 +56,8 @@ class MameZipImage(DiskImageBase):
             roms.append(rom)
             segment_info.append((offset, item.file_size, item.filename, item.CRC))
             offset += item.file_size
+        if offset == 0:
+            raise errors.InvalidDiskImage("No ROMs in zip file")
         data = np.concatenate(roms)
         self.zip_segment_info = segment_info
         self.rawdata = SegmentData(data)
-- 
2.43.0


From 3a40c69df7c54765623b864fbf166e6ed1b3807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:18 +0000
Subject: [PATCH 45/88] fix: signature check raised IndexError on Atari disk
 images too short to contain the signature

---
 atrcopy/magic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..d6ac204 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,6 +53,8 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
+        if not isinstance(index, slice) and index >= len(raw):
+            return False
         actual = raw.data[index].tolist()
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
-- 
2.43.0


From b4a19346ed08d45c006ac3950edc699310a01a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:24 +0000
Subject: [PATCH 46/88] fix: ATR header with sector size zero raised
 ZeroDivisionError

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d8ccb3e..e0896c9 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -392,6 +392,8 @@ class AtrHeader(BaseHeader):
                 raise errors.InvalidAtrHeader("no ATR header magic value")
             self.image_size = (int(values[3]) * 256 * 256 + int(values[1])) * 16
             self.sector_size = int(values[2])
+            if self.sector_size < 128:
+                raise errors.InvalidDiskImage("Invalid sector size %d in ATR header" % self.sector_size)
             self.crc = int(values[4])
             self.unused = int(values[5])
             self.flags = int(values[6])
-- 
2.43.0


From 2b5fb6efb5a0e228bc7464d2533bb285feb0a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:31 +0000
Subject: [PATCH 47/88] fix: DOS 3.3 disk with more sectors in its VTOC than in
 the image raised IndexError instead of a library error

---
 atrcopy/diskimages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b9dee1c..269c6e9 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -220,6 +220,8 @@ class DiskImageBase(Bootable):
 
     def get_raw_bytes(self, sector):
         pos, size = self.header.get_pos(sector)
+        if pos + size > self.size:
+            raise errors.ByteNotInFile166("Sector %d beyond end of image" % sector)
         return self.bytes[pos:pos + size], pos, size
 
     def get_sector_slice(self, start, end=None):
@@ -236,6 +238,8 @@ class DiskImageBase(Bootable):
             start += 1
             _, more = self.header.get_pos(start)
             size += more
+        if pos + size > self.size:
+            raise errors.ByteNotInFile166("Sector %d beyond end of image" % start)
         return slice(pos, pos + size)
 
     def get_sectors(self, start, end=None):
-- 
2.43.0


From 47af15e7307f089e97d448a743ca4d98b4282cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 48/88] fix: SpartaDOS file exactly filling its sector map
 raised IndexError

---
 atrcopy/spartados.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 95307b3..239f4aa 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -96,7 +96,10 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
-        sector = self.sector_map[self.sector_map_index]
+        try:
+            sector = self.sector_map[self.sector_map_index]
+        except IndexError:
+            sector = 0
         if sector == 0:
             return None, True, 0, self.length_remaining
         raw, pos, size = image.get_raw_bytes(sector)
-- 
2.43.0


From 00aab072a32fba4148089c8a006da0ddd71fd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:47 +0000
Subject: [PATCH 49/88] fix: length of SpartaDOS files of 8MB or more was
 negative

---
 atrcopy/spartados.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 239f4aa..3abab7d 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -13,7 +13,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
@@ -69,7 +69,7 @@ class SpartaDosDirent(AtariDosDirent):
             self.ext = b""
         else:
             self.ext = bytes(values[5]).rstrip()
-        self.length = 256*256*values[3] + values[2]
+        self.length = 256*256*int(values[3]) + int(values[2])
         self.date_array = tuple(data[17:20])
         self.time_array = tuple(data[20:23])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From f8dc375db2c4b83587815b9a71985100bae10dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:54 +0000
Subject: [PATCH 50/88] fix: deleted SpartaDOS directory entries were listed
 and could hide a live file of the same name

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 3abab7d..3e68b42 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -178,7 +178,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, d.length, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From 61e89087edca9d161c2955860696bf4bbdd01b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 51/88] fix: SpartaDOS boot record without a root directory
 raised TypeError

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 3e68b42..5676d43 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -160,7 +160,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         self.total_sectors = values['num_sectors']
         self.unused_sectors = values['num_free']
         num = self.header.max_sectors
-        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1
+        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and 0 < self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1
         if not self.is_sane:
             raise errors.InvalidDiskImage("Invalid SpartaDos parameters in boot header")
 
-- 
2.43.0


From 7652c57176cb573e1a0a47beb9f2def68c552518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:11 +0000
Subject: [PATCH 52/88] fix: double density images of uncommon sizes were read
 without their short boot sectors

---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index e0896c9..e9fa472 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -435,6 +435,10 @@ class AtrHeader(BaseHeader):
             self.num_initial_sectors = 3
         else:
             self.image_size = size
+            if self.sector_size == 256 and size % 256 == 128:
+                # the first three sectors are always 128 bytes
+                self.initial_sector_size = 128
+                self.num_initial_sectors = 3
         self.first_vtoc = 360
         self.num_vtoc = 1
         self.first_directory = 361
-- 
2.43.0


From 2540e696ccaca3b7c1229d22e269cc2ca6c9e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:20 +0000
Subject: [PATCH 53/88] fix: SpartaDOS disk with an empty root directory sector
 map raised AttributeError

---
 atrcopy/spartados.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 5676d43..22ac6d2 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -228,6 +228,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_directory_segments(self):
         dirent = self.root_dir_dirent
+        if dirent is None:
+            return []
         segment = self.get_file_segment(dirent)
         segment.name = dirent.filename
         segment.map_width = 23
-- 
2.43.0


From bdf25dceb985b7b1105835c1388c2412b7f16de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:29 +0000
Subject: [PATCH 54/88] fix: SpartaDOS root directory shorter than its stated
 length raised ValueError

---
 atrcopy/spartados.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 22ac6d2..35313e8 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -176,7 +176,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         bytes, pos, size = self.get_raw_bytes(sector)
         d = SpartaDosDirent(self, 0, bytes[0:23], starting_sector=self.root_dir)
         s = self.get_file_segment(d)
-        for filenum, i in enumerate(range(23, d.length, 23)):
+        for filenum, i in enumerate(range(23, min(d.length, len(s)) - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
             if dirent.in_use:
                 self.files.append(dirent)
-- 
2.43.0


From ccffc14f6a2fbdd48218f572cc6342654c1f46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:22 +0000
Subject: [PATCH 55/88] fix: contiguous sectors starting at the first byte of
 an image without header were reported one sector late

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 269c6e9..460a9e9 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -257,7 +257,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if count == 0:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From 1220d9d2190a81d221415af3c727819b0e8a7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:29 +0000
Subject: [PATCH 56/88] fix: converting an image to ATR format raised an
 exception

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index e9fa472..c777736 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -527,7 +527,7 @@ class AtariDosDiskImage(DiskImageBase):
         """
         first_data = len(self.header)
         raw = self.rawdata[first_data:]
-        data = add_atr_header(raw)
+        data = add_atr_header(raw.get_data())
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
-- 
2.43.0


From f0ed1439120ab16e9ce5cb312e31d53c729b7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:38 +0000
Subject: [PATCH 57/88] fix: bytes of the VTOC and directory of double density
 disks were labelled with the wrong sector

---
 atrcopy/ataridos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index c777736..2c43b91 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -647,7 +647,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
-        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 128, 3, self.header.sector_size, name="VTOC")
+        segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
         segment.set_comment_at(0x00, "Type code")
         segment.set_comment_at(0x01, "Total number of sectors")
@@ -659,7 +659,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 128, 3, self.header.sector_size, name="VTOC2")
+            segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
             segment.set_comment_at(0x44, "Sector bit map 720-1023")
@@ -673,7 +673,7 @@ class AtariDosDiskImage(DiskImageBase):
         segments = []
         addr = 0
         start, count = self.get_contiguous_sectors(361, 8)
-        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 128, 3, self.header.sector_size, name="Directory")
+        segment = RawSectorsSegment(r[start:start+count], 361, 8, count, 0, 0, self.header.sector_size, name="Directory")
         segment.style[:] = get_style_bits(data=True)
         index = 0
         for filenum in range(64):
-- 
2.43.0


From 887968871cfcb3b58363c8ba800fd6aa37acf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:46 +0000
Subject: [PATCH 58/88] fix: right slot 4 KB cartridge was loaded at address 0
 instead of $9000

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
-- 
2.43.0


From a89939a944d6ea9694f94896654e32a6e575509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:18 +0000
Subject: [PATCH 59/88] fix: adding a file to a MyDOS disk overwrote the
 directory entries of subdirectories

---
 atrcopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..f8cc9cd 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -201,7 +201,7 @@ class Directory(BaseSectorList):
         if d:
             d.sort()
             for i, dirent in d:
-                if not dirent.in_use:
+                if dirent.deleted:
                     return i
                 used.add(i)
             if self.num_dirents > 0 and (len(used) >= self.num_dirents):
-- 
2.43.0


From f0dca009891470cfb28960c851bb0d3fa6bad9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:26 +0000
Subject: [PATCH 60/88] fix: MyDOS disks with more than one VTOC sector were
 not recognised

---
 atrcopy/ataridos.py | 27 ++++++++++++++++-----------
 atrcopy/utils.py    |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 2c43b91..30f5201 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -33,7 +33,8 @@ class AtariDosWriteableSector(WriteableSector):
 
 class AtariDosVTOC(VTOC):
     def parse_segments(self, segments):
-        self.vtoc1 = segments[0].data
+        # additional VTOC sectors of large MyDOS disks are stored below 360
+        self.vtoc1 = segments[0].data.reshape((-1, self.sector_size))[::-1].flatten()
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
         self.orig_free_sectors = self.num_free_sectors
@@ -47,9 +48,10 @@ class AtariDosVTOC(VTOC):
         count = self.vtoc1[0x03:0x05].view(dtype='<u2')
         count[0] = (int(count[0]) + self.num_free_sectors - self.orig_free_sectors) & 0xffff
         self.orig_free_sectors = self.num_free_sectors
-        s = WriteableSector(self.sector_size, self.vtoc1)
-        s.sector_num = 360
-        self.sectors.append(s)
+        for i in range(len(self.vtoc1) // self.sector_size):
+            s = WriteableSector(self.sector_size, self.vtoc1[i * self.sector_size:(i + 1) * self.sector_size])
+            s.sector_num = 360 - i
+            self.sectors.append(s)
 
 
 class AtariDosDirectory(Directory):
@@ -565,20 +567,23 @@ class AtariDosDiskImage(DiskImageBase):
     def get_vtoc(self):
         data, style = self.get_sectors(360)
         values = data[0:5].view(dtype=self.vtoc_type)[0]
-        code = values[0]
+        code = int(values[0])
+        self.total_sectors = int(values[1])
+        self.unused_sectors = int(values[2])
         if code == 0 or code == 2:
             num = 1
-        else:
+        elif self.header.sector_size == 128:
             num = (code * 2) - 3
+        else:
+            num = code - 2
+        if num < 1 or code > self.calc_vtoc_code():
+            raise errors.InvalidDiskImage("Invalid number of VTOC sectors: %d" % num)
         self.first_vtoc = 360 - num + 1
         self.assert_valid_sector(self.first_vtoc)
         self.num_vtoc = num
-        if num < 0 or num > self.calc_vtoc_code():
-            raise errors.InvalidDiskImage("Invalid number of VTOC sectors: %d" % num)
 
-        self.total_sectors = values[1]
-        self.unused_sectors = values[2]
-        if self.header.image_size == 133120:
+        self.vtoc2 = 0
+        if self.header.image_size == 133120 and num == 1:
             # enhanced density has 2nd VTOC
             self.vtoc2 = 1024
             data, style = self.get_sectors(self.vtoc2)
diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index f8cc9cd..272278c 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -299,7 +299,7 @@ class VTOC(BaseSectorList):
         BaseSectorList.__init__(self, header)
 
         # sector map: 1 is free, 0 is allocated
-        self.sector_map = np.zeros([1280], dtype=np.uint8)
+        self.sector_map = np.zeros([max(1280, header.max_sectors + 1)], dtype=np.uint8)
         if segments is not None:
             self.parse_segments(segments)
 
-- 
2.43.0


From f778edf17320bf74e75e724b6146b151ab9f8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:34 +0000
Subject: [PATCH 61/88] fix: deleting a file lost its sectors above 719, and
 the second VTOC of enhanced density disks was not updated

---
 atrcopy/ataridos.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 30f5201..292c82c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -35,6 +35,7 @@ class AtariDosVTOC(VTOC):
     def parse_segments(self, segments):
         # additional VTOC sectors of large MyDOS disks are stored below 360
         self.vtoc1 = segments[0].data.reshape((-1, self.sector_size))[::-1].flatten()
+        self.vtoc2 = segments[1].data.copy() if len(segments) > 1 else None
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
         self.orig_free_sectors = self.num_free_sectors
@@ -52,6 +53,28 @@ class AtariDosVTOC(VTOC):
             s = WriteableSector(self.sector_size, self.vtoc1[i * self.sector_size:(i + 1) * self.sector_size])
             s.sector_num = 360 - i
             self.sectors.append(s)
+        if self.vtoc2 is not None:
+            self.vtoc2[0:0x54] = self.vtoc1[0x10:0x64]
+            s = WriteableSector(self.sector_size, self.vtoc2)
+            s.sector_num = 1024
+            self.sectors.append(s)
+
+    def free_sector_list(self, sector_list):
+        for sector in sector_list:
+            if sector.sector_num >= 720:
+                self.free_extra_sector(sector.sector_num)
+        VTOC.free_sector_list(self, [s for s in sector_list if s.sector_num < 720])
+
+    def free_extra_sector(self, num):
+        # sectors above 719 are not used for new files, so aren't in sector_map
+        if self.vtoc2 is not None:
+            index, vtoc, count = (num - 48) // 8, self.vtoc2, self.vtoc2[0x7a:0x7c]
+        else:
+            index, vtoc, count = 0x0a + num // 8, self.vtoc1, self.vtoc1[0x03:0x05]
+        bit = 0x80 >> (num & 7)
+        if index < len(vtoc) and not vtoc[index] & bit:
+            vtoc[index] |= bit
+            count.view(dtype='<u2')[0] += 1
 
 
 class AtariDosDirectory(Directory):
-- 
2.43.0


From aa82197df607697e8da88f9b90ec29c0f8739d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:42 +0000
Subject: [PATCH 62/88] fix: DOS 2.5 files with sectors above 719 were not
 listed

---
 atrcopy/ataridos.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 292c82c..54e53de 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -127,6 +127,7 @@ class AtariDosDirent(Dirent):
         self.opened_output = False
         self.dos_2 = False
         self.mydos = False
+        self.dos_25 = False
         self.is_dir = False
         self.locked = False
         self.in_use = False
@@ -189,7 +190,10 @@ class AtariDosDirent(Dirent):
         self.mydos = (flag&0x04) > 0
         self.is_dir = (flag&0x10) > 0
         self.locked = (flag&0x20) > 0
-        self.in_use = (flag&0x40) > 0
+        # DOS 2.5 uses this flag for files with sectors above 719 so they are
+        # not seen by DOS 2.0
+        self.dos_25 = (flag&0xdf) == 0x03 and image.vtoc2 > 0
+        self.in_use = (flag&0x40) > 0 or self.dos_25
         self.deleted = (flag&0x80) > 0
         self.num_sectors = int(values[1])
         self.starting_sector = int(values[2])
@@ -201,7 +205,7 @@ class AtariDosDirent(Dirent):
     def encode_dirent(self):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
-        flag = (self.flag & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        flag = (self.flag & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use and not self.dos_25)) | (0x80 * int(self.deleted))
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-- 
2.43.0


From 22930bb41d0584fa9d53d5b640cb284480a450e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:52 +0000
Subject: [PATCH 63/88] fix: disk images starting with zeros could be unpacked
 as a series of lzma streams

---
 atrcopy/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index cca63c5..5bd4a48 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -78,6 +78,9 @@ class BZipContainer(DiskImageContainer):
 
 class LZMAContainer(DiskImageContainer):
     def unpack_bytes(self, byte_data):
+        if byte_data[0:5] == bytes(5):
+            # no lzma stream has an empty dictionary
+            raise errors.InvalidContainer("Not an lzma stream")
         try:
             buf = io.BytesIO(byte_data)
             with lzma.LZMAFile(buf, mode='rb') as f:
-- 
2.43.0


From 569f5c595aaf6e8d46fcdf12127e6cf0f2875437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:10 +0000
Subject: [PATCH 64/88] fix: only the first of several -d, -b or -s options was
 used

---
 atrcopy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 1cd0bdd..9ac2806 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -622,9 +622,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = sum(options.asm or [], [])
+        data = sum(options.data or [], [])
+        obj = sum(options.obj or [], [])
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -650,9 +650,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = sum(options.asm or [], [])
+                data = sum(options.data or [], [])
+                obj = sum(options.obj or [], [])
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From d9f895578bb64481b65bee386cb5071affd76612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:18 +0000
Subject: [PATCH 65/88] fix: steps in slices of data files were taken as no
 end, and data files with brackets in their names could not be used

---
 atrcopy/__init__.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 9ac2806..be61688 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -1,4 +1,5 @@
 import os
+import re
 import sys
 import zlib
 import json
@@ -241,21 +242,13 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
         first = text_to_int(addr)
         log.debug("Adding data file %s at $%04x" % (name, first))
         subset = slice(0, sys.maxsize)
-        if "[" in name and "]" in name:
-            name, slicetext = name.rsplit("[", 1)
-            if ":" in slicetext:
-                start, end = slicetext.split(":", 1)
-                try:
-                    start = int(start)
-                except:
-                    start = 0
-                if end.endswith("]"):
-                    end = end[:-1]
-                try:
-                    end = int(end)
-                except:
-                    end = None
-                subset = slice(start, end)
+        match = re.match(r"(.*)\[([^\[\]]*:[^\[\]]*)\]$", name)
+        if match:
+            name = match.group(1)
+            try:
+                subset = slice(*[int(text) if text.strip() else None for text in match.group(2).split(":")])
+            except (TypeError, ValueError):
+                raise errors.AtrError("Invalid slice [%s] of data file %s" % (match.group(2), name))
         with open(name, 'rb') as fh:
             data = fh.read()[subset]
             s = segments.add_segment(data, first)
-- 
2.43.0


From e2115be308cd80a488e45132a22489e4a604b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 66/88] fix: a run address that is not a number was ignored

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index be61688..5e7ce09 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -279,7 +279,7 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
             try:
                 run_addr = int(run_addr)
             except ValueError:
-                run_addr = None
+                raise errors.AtrError("Invalid run address %s" % run_addr)
 
     return segments, run_addr
 
-- 
2.43.0


From 5241455e0e1df00b0fcd235e3f24a48e60a94a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:34 +0000
Subject: [PATCH 67/88] fix: the init address was lost when it shared a segment
 with the run address

---
 atrcopy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 5e7ce09..647c146 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -265,6 +265,8 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                         run_addr = s.run_address()
                     else:
                         print(f"already have run address {run_addr}; skipping {s.run_address()}")
+                    if len(s) > 2:
+                        segments.add_segment(s.data[2:], s.origin + 2)
                 elif s.origin > 0:
                     print(f"adding {s} from {name}")
                     segments.add_segment(s.data, s.origin)
-- 
2.43.0


From 09cab82472210bf9223347e88cc314b3547120a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:41 +0000
Subject: [PATCH 68/88] fix: assembling to a local file without a known
 extension raised an AttributeError

---
 atrcopy/diskimages.py  | 2 ++
 atrcopy/executables.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 460a9e9..a2acb63 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -316,6 +316,8 @@ class DiskImageBase(Bootable):
         try:
             data, filetype = create_executable_file_data(output_name, segments, run_addr)
         except errors.UnsupportedContainer:
+            if not self.default_executable_extension:
+                raise
             data, filetype = create_executable_file_data(self.default_executable_extension, segments, run_addr)
         return data, filetype
 
diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index dc90997..39d8547 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -131,4 +131,4 @@ def create_executable_file_data(filename, segments, run_addr=None):
     elif name.endswith("bin") or name.endswith("bsave"):
         data = get_bsave(segments, run_addr)
         return data, "B"
-    raise errors.UnsupportedContainer
+    raise errors.UnsupportedContainer("Can't determine executable format from the name %s" % filename)
-- 
2.43.0


From a0e7e2386abae7e641eba1e3af79e36022c39e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:45 +0000
Subject: [PATCH 69/88] fix: asking for the help of a disk image without a
 command raised an IndexError

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 647c146..e067223 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -579,7 +579,7 @@ def run():
                 # if the first argument without a leading dash looks like a
                 # command instead of a disk image, show help for that command
                 args = [non_dash[0], "--help"]
-            elif len(non_dash) > 0 and non_dash[1] in reverse_aliases:
+            elif len(non_dash) > 1 and non_dash[1] in reverse_aliases:
                 # if the first argument without a leading dash looks like a
                 # command instead of a disk image, show help for that command
                 args = [non_dash[1], "--help"]
-- 
2.43.0


From 7b56219d60bfc5f5abbdc2ef40d2aa92b63f62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 70/88] fix: commands that need files raised AttributeErrors or
 TypeErrors on images without a writeable file system

---
 atrcopy/ataridos.py   |  3 +++
 atrcopy/diskimages.py | 33 ++++++++++++++++++++++++++++-----
 atrcopy/dummy.py      |  7 ++++++-
 atrcopy/kboot.py      |  4 ++++
 atrcopy/spartados.py  |  4 ++++
 5 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 54e53de..61adc45 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -752,6 +752,9 @@ class AtariDosDiskImage(DiskImageBase):
 
 
 class BootDiskImage(AtariDosDiskImage):
+    vtoc_class = VTOC
+    directory_class = Directory
+
     def __str__(self):
         return "%s Boot Disk" % (self.header)
 
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index a2acb63..ff699b1 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -93,13 +93,31 @@ class BaseHeader:
 
 
 class Bootable:
+    default_executable_extension = None
+    default_filetype = ""
+
+    # images without a file system can't find or change any files
+
+    def get_vtoc_object(self):
+        raise errors.NotImplementedError("No VTOC on this type of image")
+
+    def get_stored_filename(self, filename):
+        return filename
+
+    def find_dirent(self, filename):
+        raise errors.FileNotFound("%s not found on disk" % str(filename))
+
+    def write_file(self, filename, filetype, data):
+        raise errors.NotImplementedError("Writing files not supported on this type of image")
+
+    def delete_file(self, filename):
+        raise errors.NotImplementedError("Deleting files not supported on this type of image")
+
     def create_emulator_boot_segment(self):
         return ObjSegment(self.rawdata, 0, 0, 0)
 
 
 class DiskImageBase(Bootable):
-    default_executable_extension = None
-
     def __init__(self, rawdata, filename="", create=False):
         self.rawdata = rawdata
         self.bytes = self.rawdata.get_data()
@@ -338,6 +356,8 @@ class DiskImageBase(Bootable):
         return
 
     def get_vtoc_object(self):
+        if self.vtoc_class is VTOC:
+            return Bootable.get_vtoc_object(self)
         vtoc_segments = self.get_vtoc_segments()
         vtoc = self.vtoc_class(self.header, vtoc_segments)
         return vtoc
@@ -346,10 +366,9 @@ class DiskImageBase(Bootable):
         """Get the name that a new file will be listed under, which may be
         shorter than the requested name.
         """
-        try:
-            cls = self.directory_class(self.header).dirent_class
-        except errors.NotImplementedError:
+        if self.directory_class is Directory:
             return filename
+        cls = self.directory_class(self.header).dirent_class
         dirent = cls(None)
         dirent.set_values(filename, "", 0)
         return cls(self, 0, dirent.encode_dirent()).filename
@@ -361,6 +380,8 @@ class DiskImageBase(Bootable):
         not enough space on disk or a free entry is not available in the
         catalog.
         """
+        if self.directory_class is Directory:
+            return Bootable.write_file(self, filename, filetype, data)
         state = self.begin_transaction()
         try:
             directory = self.directory_class(self.header)
@@ -398,6 +419,8 @@ class DiskImageBase(Bootable):
             self.bytes[pos:pos + size] = sector.data
 
     def delete_file(self, filename):
+        if self.directory_class is Directory:
+            return Bootable.delete_file(self, filename)
         state = self.begin_transaction()
         try:
             directory = self.directory_class(self.header)
diff --git a/atrcopy/dummy.py b/atrcopy/dummy.py
index 2c5b469..8e18de1 100644
--- a/atrcopy/dummy.py
+++ b/atrcopy/dummy.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from . import errors
 from .segments import SegmentData, EmptySegment, ObjSegment
-from .diskimages import DiskImageBase
+from .diskimages import Bootable, DiskImageBase
 from .utils import to_numpy
 
 import logging
@@ -14,6 +14,7 @@ log = logging.getLogger(__name__)
 class LocalFilesystemImage(DiskImageBase):
     def __init__(self, path):
         self.path = path
+        self.files = []
 
     def __str__(self, path="."):
         return f"Local filesystem output to: {self.path}"
@@ -41,7 +42,11 @@ class LocalFilesystemImage(DiskImageBase):
     def delete_file(self, name):
         pass
 
+    def get_vtoc_object(self):
+        return Bootable.get_vtoc_object(self)
+
 
 class LocalFilesystem():
     def __init__(self, path="."):
         self.image = LocalFilesystemImage(path)
+        self.segments = []
diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 76faf09..1e2b37e 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -3,6 +3,7 @@ import numpy as np
 from . import errors
 from .ataridos import AtrHeader, AtariDosDirent, AtariDosDiskImage, XexSegment, get_xex
 from .segments import SegmentData
+from .utils import Directory, VTOC
 
 
 class KBootDirent(AtariDosDirent):
@@ -36,6 +37,9 @@ class KBootDirent(AtariDosDirent):
 
 
 class KBootImage(AtariDosDiskImage):
+    vtoc_class = VTOC
+    directory_class = Directory
+
     def __str__(self):
         return "%s KBoot Format: %d byte executable" % (self.header, self.files[0].exe_size)
 
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 35313e8..62af046 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -3,6 +3,7 @@ import numpy as np
 from . import errors
 from .ataridos import AtariDosDirent, AtariDosDiskImage, XexSegment
 from .segments import DefaultSegment, EmptySegment, ObjSegment, RawSectorsSegment, SegmentSaver
+from .utils import Directory, VTOC
 
 import logging
 log = logging.getLogger(__name__)
@@ -110,6 +111,9 @@ class SpartaDosDirent(AtariDosDirent):
 
 
 class SpartaDosDiskImage(AtariDosDiskImage):
+    vtoc_class = VTOC
+    directory_class = Directory
+
     def __init__(self, *args, **kwargs):
         self.first_bitmap = 0
         self.num_bitmap = 0
-- 
2.43.0


From f7840a9dd60eebdcfe228d83a1be4f2597e867d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 71/88] fix: bad load addresses and slices of data files raised
 ValueErrors, and disk images given as object files a TypeError

---
 atrcopy/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index e067223..1e667db 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -239,7 +239,10 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
         if "@" not in name:
             raise errors.AtrError("Data files must include a load address specified with the @ char")
         name, addr = name.rsplit("@", 1)
-        first = text_to_int(addr)
+        try:
+            first = text_to_int(addr)
+        except ValueError:
+            raise errors.AtrError("Invalid load address %s of data file %s" % (addr, name))
         log.debug("Adding data file %s at $%04x" % (name, first))
         subset = slice(0, sys.maxsize)
         match = re.match(r"(.*)\[([^\[\]]*:[^\[\]]*)\]$", name)
@@ -247,6 +250,7 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
             name = match.group(1)
             try:
                 subset = slice(*[int(text) if text.strip() else None for text in match.group(2).split(":")])
+                subset.indices(0)  # raises ValueError if the step is zero
             except (TypeError, ValueError):
                 raise errors.AtrError("Invalid slice [%s] of data file %s" % (match.group(2), name))
         with open(name, 'rb') as fh:
@@ -269,7 +273,7 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                         segments.add_segment(s.data[2:], s.origin + 2)
                 elif s.origin > 0:
                     print(f"adding {s} from {name}")
-                    segments.add_segment(s.data, s.origin)
+                    segments.add_segment(s.data[:], s.origin)
     if options.verbose:
         for s in segments:
             print("%s - %04x)" % (str(s)[:-1], s.origin + len(s)))
-- 
2.43.0


From df2e6c5197abe286c566827f57de7c1ba46b9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:00 +0000
Subject: [PATCH 72/88] fix: extracting from the local filesystem raised an
 AttributeError

---
 atrcopy/dummy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dummy.py b/atrcopy/dummy.py
index 8e18de1..ca189a9 100644
--- a/atrcopy/dummy.py
+++ b/atrcopy/dummy.py
@@ -11,6 +11,11 @@ import logging
 log = logging.getLogger(__name__)
 
 
+class LocalDirent:
+    def __init__(self, filename):
+        self.filename = filename
+
+
 class LocalFilesystemImage(DiskImageBase):
     def __init__(self, path):
         self.path = path
@@ -31,9 +36,13 @@ class LocalFilesystemImage(DiskImageBase):
     def find_dirent(self, name):
         path = os.path.join(self.path, name)
         if os.path.exists(path):
-            return True
+            return LocalDirent(name)
         raise errors.FileNotFound("%s not found on disk" % str(name))
 
+    def get_file(self, dirent):
+        with open(os.path.join(self.path, dirent.filename), "rb") as fh:
+            return fh.read()
+
     def write_file(self, name, filetype, data):
         path = os.path.join(self.path, name)
         with open(path, "wb") as fh:
-- 
2.43.0


From 466f7d693b1b358fc326bc398f539e7258aba5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:30 +0000
Subject: [PATCH 73/88] fix: Vectrex and Atari 2600 images in the signature
 database were refused if their size isn't a power of 2

---
 atrcopy/cartridge.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 2908b24..38d77bb 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -340,16 +340,23 @@ class RomImage(DiskImageBase):
         return s
 
 
-class Atari2600CartImage(RomImage):
+class SignatureRomImage(RomImage):
+    """ROM identified by its signature, so it may be of any size"""
+
+    def check_size(self):
+        pass
+
+
+class Atari2600CartImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Cartridge"
 
 
-class Atari2600StarpathImage(RomImage):
+class Atari2600StarpathImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Atari 2600 Starpath Cassette"
 
 
-class VectrexCartImage(RomImage):
+class VectrexCartImage(SignatureRomImage):
     def __str__(self):
         return f"{len(self.rawdata) // 1024}k Vectrex Cartridge"
-- 
2.43.0


From 0e92310d3a4aeac1aaec121d16894f300c279150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 74/88] fix: the boot segments of Atari DOS disks were taken
 from the VTOC instead of the boot sector

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 61adc45..d0037af 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -659,7 +659,7 @@ class AtariDosDiskImage(DiskImageBase):
         ])
 
     def get_boot_segments(self):
-        data, style = self.get_sectors(360)
+        data, style = self.get_sectors(1)
         values = data[0:20].view(dtype=self.boot_record_type)[0]
         flag = int(values[0])
         segments = []
-- 
2.43.0


From c64fd5664888c63ee8034417a4e3570c05610aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:23 +0000
Subject: [PATCH 75/88] fix: executables on Atari disks were never split into
 their segments

---
 atrcopy/ataridos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index d0037af..2591d95 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -745,6 +745,7 @@ class AtariDosDiskImage(DiskImageBase):
             segments_out.append(segment)
             try:
                 binary = AtariDosFile(segment.rawdata)
+                binary.parse_segments()
                 segments_out.extend(binary.segments)
             except errors.InvalidBinaryFile:
                 log.debug("%s not a binary file; skipping segment generation" % str(segment))
-- 
2.43.0


From 6c6651bc1e81bee9a714f56869874f1e0f364c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 76/88] fix: SpartaDOS disks listed the boot header twice, and
 never the boot sectors beyond the first

---
 atrcopy/spartados.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 62af046..9fdb23e 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -188,16 +188,16 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_boot_segments(self):
         segments = []
-        num = min(self.num_boot, 1)
+        num = min(max(int(self.num_boot), 1), self.header.max_sectors)
         s = self.get_sector_slice(1, num)
         r = self.rawdata[s]
-        addr = self.boot_addr
+        addr = int(self.boot_addr)
         header = ObjSegment(r[0:43], 0, 0, addr, addr + 43, name="Boot Header")
         segments.append(header)
         if self.num_boot > 0:
             sectors = ObjSegment(r, 0, 0, addr, addr + len(r), name="Boot Sectors")
             code = ObjSegment(r[43:], 0, 0, addr + 43, addr + len(r), name="Boot Code")
-            segments.extend([header, code])
+            segments.extend([sectors, code])
         return segments
 
     def get_vtoc_segments(self):
-- 
2.43.0


From 13a1f91f72f1cb0ffb40ae23b11b7c466a10b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:37 +0000
Subject: [PATCH 77/88] fix: the Boot 3 segment of DOS 3.3 disks had a sector
 beyond the end of DOS

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b87f7fd..438f2a8 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -518,7 +518,7 @@ class Dos33DiskImage(DiskImageBase):
         s = self.get_sector_slice(0x0a, 0x0b)
         r = self.rawdata[s]
         relocator = ObjSegment(r, 0, 0, 0x1b00, name="Relocator")
-        s = self.get_sector_slice(0x0c, 0x0c + 25)
+        s = self.get_sector_slice(0x0c, 0x0c + 24)
         r = self.rawdata[s]
         boot3 = ObjSegment(r, 0, 0, 0x1d00, name="Boot 3")
         return [boot1, boot2, relocator, boot3]
-- 
2.43.0


From 5b71c6e89d9b833b53a2e2b03f0c6f2acaab3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 78/88] fix: the comment on the bit map of sectors 720-1023 in
 the second VTOC was not where it begins

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 2591d95..3ad969c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -694,7 +694,7 @@ class AtariDosDiskImage(DiskImageBase):
             segment = RawSectorsSegment(r[start:start+count], self.vtoc2, 1, count, 0, 0, self.header.sector_size, name="VTOC2")
             segment.style[:] = get_style_bits(data=True)
             segment.set_comment_at(0x00, "Repeat of sectors 48-719")
-            segment.set_comment_at(0x44, "Sector bit map 720-1023")
+            segment.set_comment_at(0x54, "Sector bit map 720-1023")
             segment.set_comment_at(0x7a, "Number of free sectors above 720")
             segment.set_comment_at(0x7c, "unused")
             segments.append(segment)
-- 
2.43.0


From 87a9c9b174d186d3d5909941d468d0a36a98fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:50 +0000
Subject: [PATCH 79/88] fix: the comments on the VTOC of disks with several
 VTOC sectors were on the bit map of the first one instead of sector 360

---
 atrcopy/ataridos.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3ad969c..0d98be6 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -681,13 +681,16 @@ class AtariDosDiskImage(DiskImageBase):
         start, count = self.get_contiguous_sectors(self.first_vtoc, self.num_vtoc)
         segment = RawSectorsSegment(r[start:start+count], self.first_vtoc, self.num_vtoc, count, 0, 0, self.header.sector_size, name="VTOC")
         segment.style[:] = get_style_bits(data=True)
-        segment.set_comment_at(0x00, "Type code")
-        segment.set_comment_at(0x01, "Total number of sectors")
-        segment.set_comment_at(0x03, "Number of free sectors")
-        segment.set_comment_at(0x05, "reserved")
-        segment.set_comment_at(0x06, "unused")
-        segment.set_comment_at(0x0a, "Sector bit map")
-        segment.set_comment_at(0x64, "unused")
+        # sector 360 comes last if there are several VTOC sectors
+        index = count - self.header.sector_size
+        segment.set_comment_at(index + 0x00, "Type code")
+        segment.set_comment_at(index + 0x01, "Total number of sectors")
+        segment.set_comment_at(index + 0x03, "Number of free sectors")
+        segment.set_comment_at(index + 0x05, "reserved")
+        segment.set_comment_at(index + 0x06, "unused")
+        segment.set_comment_at(index + 0x0a, "Sector bit map")
+        if self.num_vtoc == 1:
+            segment.set_comment_at(index + 0x64, "unused")
         segments.append(segment)
         if self.vtoc2 > 0:
             start, count = self.get_contiguous_sectors(self.vtoc2, 1)
-- 
2.43.0


From 5ec6f7ef2e644667e52d3ef7d270b8d6997936d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:56 +0000
Subject: [PATCH 80/88] fix: a file of a single byte was taken for an Atari
 executable

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 0d98be6..606d526 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -359,6 +359,8 @@ class AtariDosFile(Bootable):
         while pos < self.size:
             if pos + 1 < self.size:
                 header, = b[pos:pos+2].view(dtype='<u2')
+            elif first:
+                raise errors.InvalidBinaryFile("Object file doesn't start with 0xffff")
             else:
                 self.segments.append(ObjSegment(r[pos:pos + 1], pos, pos + 1, 0, 1, "Incomplete Data"))
                 break
-- 
2.43.0


From 778ac33b9dd10ab732dd51dea2827c06dc3bf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:16 +0000
Subject: [PATCH 81/88] fix: deleting a DOS 3.3 file with a sector that does
 not exist in its track/sector list gave an IndexError, or freed sectors of
 its list as if it were whole

---
 atrcopy/dos33.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 438f2a8..18a5c44 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -333,6 +333,7 @@ class Dos33Dirent(Dirent):
         for sector_num in self.sector_map:
             if sector_num == 0:
                 continue
+            image.assert_valid_sector(sector_num)
             sector = WriteableSector(image.header.sector_size, None, sector_num)
             sectors.append(sector)
         return sectors
-- 
2.43.0


From 5e6eca80d11505abec4cb6dddfb628b33a64bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:28 +0000
Subject: [PATCH 82/88] fix: an error or crash while a disk image was saved
 destroyed the image, as it was truncated before the new contents were written

---
 atrcopy/__init__.py   |  5 ++---
 atrcopy/diskimages.py |  3 +--
 atrcopy/utils.py      | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 1e667db..6e04f38 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -23,7 +23,7 @@ from .spartados import SpartaDosDiskImage
 from .cartridge import A8CartHeader, AtariCartImage, RomImage
 from .parsers import SegmentParser, DefaultSegmentParser, guess_parser_by_size, guess_parser_for_mime, guess_parser_for_system, guess_container, iter_parsers, iter_known_segment_parsers, mime_parse_order, parsers_for_filename
 from .magic import guess_detail_for_mime
-from .utils import to_numpy, text_to_int
+from .utils import to_numpy, text_to_int, replace_file
 from .dummy import LocalFilesystem
 
 
@@ -417,8 +417,7 @@ def create_image(template, name):
         if os.path.exists(name) and not options.force:
             print("skipping %s, use -f to overwrite" % (name))
         else:
-            with open(name, "wb") as fh:
-                fh.write(data)
+            replace_file(name, data)
             parser, _ = find_diskimage(name, options.verbose)
             print("created %s: %s" % (name, str(parser.image)))
             list_files(parser.image, [])
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index ff699b1..826a932 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -209,8 +209,7 @@ class DiskImageBase(Bootable):
         if not filename:
             raise RuntimeError("No filename specified for save!")
         data = self.bytes[:]
-        with open(filename, "wb") as fh:
-            data.tofile(fh)
+        replace_file(filename, data.tobytes())
 
     def assert_valid_sector(self, sector):
         if not self.header.sector_is_valid(sector):
diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 272278c..bb38b2e 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -1,3 +1,6 @@
+import os
+import shutil
+import tempfile
 import types
 import uuid as stdlib_uuid
 
@@ -25,6 +28,35 @@ def uuid():
     return u
 
 
+def replace_file(filename, data):
+    """Write data to a file such that an existing file either keeps its
+    contents (if there is an error or the program is interrupted) or has all of
+    the new contents.
+    """
+    filename = os.path.realpath(filename)
+    exists = os.path.exists(filename)
+    path, name = os.path.split(filename)
+    if (exists and not os.path.isfile(filename)) or not os.access(path, os.W_OK):
+        # device, or can't create another file there
+        with open(filename, "wb") as fh:
+            fh.write(data)
+        return
+    fd, temp = tempfile.mkstemp(prefix=".%s." % name[0:200], dir=path)
+    try:
+        with os.fdopen(fd, "wb") as fh:
+            fh.write(data)
+        if exists:
+            shutil.copymode(filename, temp)
+        else:
+            umask = os.umask(0)
+            os.umask(umask)
+            os.chmod(temp, 0o666 & ~umask)
+        os.replace(temp, filename)
+    except:
+        os.remove(temp)
+        raise
+
+
 def to_numpy(value):
     if type(value) is np.ndarray:
         return value
-- 
2.43.0


From 82bf482875eb81cacdce6dedff43633cdb020beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:41 +0000
Subject: [PATCH 83/88] fix: assemble on an image that holds no files, such as
 an Atari executable, gave an AttributeError instead of the error that add
 gives

---
 atrcopy/diskimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 826a932..0654812 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -113,6 +113,9 @@ class Bootable:
     def delete_file(self, filename):
         raise errors.NotImplementedError("Deleting files not supported on this type of image")
 
+    def create_executable_file_image(self, output_name, segments, run_addr=None):
+        raise errors.NotImplementedError("Writing files not supported on this type of image")
+
     def create_emulator_boot_segment(self):
         return ObjSegment(self.rawdata, 0, 0, 0)
 
-- 
2.43.0


From 36223b9a3aeadf85f5a56b198f9659befd578d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:44 +0000
Subject: [PATCH 84/88] fix: saving replaced a disk image that is write
 protected, since the file was replaced without being opened

---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index bb38b2e..af79ea0 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -36,8 +36,8 @@ def replace_file(filename, data):
     filename = os.path.realpath(filename)
     exists = os.path.exists(filename)
     path, name = os.path.split(filename)
-    if (exists and not os.path.isfile(filename)) or not os.access(path, os.W_OK):
-        # device, or can't create another file there
+    if (exists and not (os.path.isfile(filename) and os.access(filename, os.W_OK))) or not os.access(path, os.W_OK):
+        # device, write protected, or can't create another file there
         with open(filename, "wb") as fh:
             fh.write(data)
         return
-- 
2.43.0


From f904a6cafb2d19e8283e203c325e636b24969786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 85/88] fix: creating a disk with one of the documented
 template names dos2sd, dos2ed or dos33 was refused as ambiguous, as other
 template names contain them

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 6e04f38..4c2cba3 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -389,6 +389,9 @@ def get_template_info():
 
 def get_template_data(template):
     possibilities = get_template_images(template)
+    exact = [name for name in possibilities if template in (name, os.path.splitext(name)[0])]
+    if exact:
+        possibilities = {name: possibilities[name] for name in exact}
     if not possibilities:
         raise errors.InvalidDiskImage("Unknown template disk image %s" % template)
     if len(possibilities) > 1:
-- 
2.43.0


From 605d9abcdf066126bbd1056663e11ccd77fced33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 86/88] fix: a KBoot image given its file name raised a
 TypeError, as the name was not turned into bytes

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 1e2b37e..5db70ed 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -11,7 +11,7 @@ class KBootDirent(AtariDosDirent):
         AtariDosDirent.__init__(self, image)
         self.in_use = True
         self.starting_sector = 4
-        self.basename = image.filename
+        self.basename = image.filename.encode("latin1", errors="replace")
         if not self.basename:
             self.basename = b"KBOOT"
         if self.basename == self.basename.upper():
-- 
2.43.0


From aefec4e77ca6112e44d94cb10a176b2ffdb5c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:16 +0000
Subject: [PATCH 87/88] fix: the cartridge image made for an emulator had no
 checksum in its header

---
 atrcopy/cartridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 38d77bb..a387092 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -166,7 +166,8 @@ class A8CartHeader:
         return self.cart_type != -1
 
     def calc_crc_from_data(self, data):
-        self.crc = 0
+        # the format uses the sum of all bytes in the ROM
+        self.crc = int(np.sum(data, dtype=np.uint64)) & 0xffffffff
 
     def to_array(self):
         raw = np.zeros([self.nominal_length], dtype=np.uint8)
-- 
2.43.0


From f01cd1a7a8e220a008be49db2349ac44750ca6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:27 +0000
Subject: [PATCH 88/88] fix: get_entire_style_ranges returned None instead of
 an empty list for an empty segment

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 7a6f5e9..90e5933 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -739,7 +739,7 @@ class DefaultSegment:
         last_end = 0
         if len(groups) == 1 and len(groups[0]) == 0:
             # check for degenerate case
-            return
+            return ranges
         last_style = -1
         for group in groups:
             # each group is guaranteed to have the same style
-- 
2.43.0

