From 87cecb8b4a241c18d8c227e472fe364733bd4763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 01/71] fix: fstream::close closed a descriptor twice after
 throwing for a failed close

---
 fstream.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..b4ae53c 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -118,12 +118,11 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
-	if (errno != EINTR) {
-	    set_and_throw (badbit | failbit, "close");
-	    break;
-	}
-    }
+    int rv;
+    do { rv = ::close(_fd); } while (rv && errno == EINTR);
+    _fd = -1;	// The descriptor is gone even if close failed, and must not be closed again.
+    if (rv)
+	set_and_throw (badbit | failbit, "close");
     detach();
 }
 
-- 
2.43.0


From 6307b122c75cbee26cb61dd089c91a94acaee63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 02/71] fix: fstream::attach and open lost the filename and the
 new descriptor when replacing an open file

---
 fstream.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index b4ae53c..ad17cfb 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,12 +64,17 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
-    _filename = filename;
+    const int openErrno = errno;
+    string newFilename;
+    newFilename = filename;
     clear (goodbit);
-    if (nfd < 0)
+    close();	// The old file, if any. Must be done before replacing the name, which close reports and erases.
+    _filename.swap (newFilename);
+    if (nfd < 0) {
+	errno = openErrno;
 	set_and_throw (badbit, "open");
-    close();
-    _fd = nfd;
+    } else
+	_fd = nfd;
 }
 
 /// Detaches from the current fd.
@@ -110,7 +115,11 @@ int fstream::om_to_flags (openmode m) noexcept // static
 void fstream::open (const char* filename, openmode mode, mode_t perms)
 {
     int nfd = ::open (filename, om_to_flags(mode), perms);
-    attach (nfd, filename);
+    try { attach (nfd, filename); } catch (...) {
+	if (nfd >= 0)	// attach did not get to own it
+	    while (::close(nfd) && errno == EINTR) {}
+	throw;
+    }
 }
 
 /// Closes the file and throws on error.
-- 
2.43.0


From 417ed5525fdc845a6ad93e5c167a423d2e79aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 03/71] fix: truncated ostringstream::vformat counted the
 terminator as text

---
 sostream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..eb44f16 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -134,7 +134,8 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    // When truncated, vsnprintf uses the last byte for the terminator, which is not text.
+    SetPos (pos() + min (rv, max (space-1, 0)));
     return rv;
 }
 
-- 
2.43.0


From 0881e4149fb56825c27dbe0274a9d7c6a9e5464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 04/71] fix: ofstream lost, repeated or kept buffering text
 when the device refused it

Bytes written before an exception were written again, a device that would
block grew the buffer without bound, and the failure was not visible in the
stream's state.
---
 ofstream.cc | 32 +++++++++++++++++++++++++-------
 ofstream.h  |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..232fdf4 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -5,8 +5,8 @@
 
 #include "ofstream.h"
 #include "ustring.h"
-#include "uexception.h"
-#include <stdio.h>
+#include "ustdxept.h"
+#include <errno.h>
 
 namespace ustl {
 
@@ -59,10 +59,30 @@ void ofstream::close (void)
     _file.close();
 }
 
+/// Writes out as much of the buffer as the file will take.
+void ofstream::write_buffer (void)
+{
+    // No exceptions until the bytes already written are removed from the buffer.
+    const iostate oldExceptions = _file.exceptions();
+    _file.exceptions (goodbit);
+    const size_type bw = _file.write (cdata(), pos());
+    const int writeErrno = errno;
+    _file.exceptions (oldExceptions);
+    erase (begin(), bw);
+    ostringstream::setstate (_file.rdstate());
+    if (_file.rdstate() & oldExceptions) {
+	if (_file.eof())
+	    throw stream_bounds_exception ("write", _file.name(), _file.pos(), pos(), 0);
+	errno = writeErrno;
+	throw file_exception ("write", _file.name());
+    }
+}
+
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
-    while (good() && pos() && overflow (capacity())) {}
+    while (good() && pos())
+	write_buffer();
     return *this;
 }
 
@@ -78,10 +98,8 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 /// Called when more buffer space (\p n bytes) is needed.
 ofstream::size_type ofstream::overflow (size_type n)
 {
-    if (_file.good() && n > capacity() - pos()) {
-	size_type bw = _file.write (cdata(), pos());
-	erase (begin(), bw);
-    }
+    if (_file.good() && n > capacity() - pos())
+	write_buffer();
     return ostringstream::overflow (n);
 }
 
diff --git a/ofstream.h b/ofstream.h
index 413ba5a..4412751 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -35,6 +35,8 @@ public:
     ofstream&		seekp (off_t p, seekdir d = beg);
     virtual ostream&	flush (void) override;
     virtual size_type	overflow (size_type n = 1) override;
+private:
+    void		write_buffer (void);
 private:
     fstream		_file;
 };
-- 
2.43.0


From f9cbdcee56e21151cb19f1399fd313cff861994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 05/71] fix: ofstream close, open and seekp moved pending text
 to the wrong place

Text buffered for one file was written to the next one opened, or at the
new position when it could not be written at the old one, and failures of
close and seek were not visible in the stream's state.
---
 ofstream.cc | 17 +++++++++++++++--
 ofstream.h  |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 232fdf4..d1456d3 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -51,12 +51,23 @@ ofstream::~ofstream (void) noexcept
 	_file.detach();
 }
 
+/// Opens \p filename, after writing what is still buffered to the old file.
+void ofstream::open (const char* filename, openmode mode)
+{
+    if (is_open())
+	close();
+    try { _file.open (filename, mode); } catch (...) { clear (_file.rdstate()); throw; }
+    clear (_file.rdstate());
+}
+
 /// Flushes the buffer and closes the file.
 void ofstream::close (void)
 {
     clear (_file.rdstate());
     flush();
-    _file.close();
+    erase (begin(), pos());	// What could not be written must not get into the next file.
+    try { _file.close(); } catch (...) { clear (_file.rdstate()); throw; }
+    ostringstream::setstate (_file.rdstate());
 }
 
 /// Writes out as much of the buffer as the file will take.
@@ -90,7 +101,9 @@ ostream& ofstream::flush (void)
 ofstream& ofstream::seekp (off_t p, seekdir d)
 {
     flush();
-    _file.seekp (p, d);
+    if (!pos()) {	// Unwritten text belongs to the old position.
+	try { _file.seekp (p, d); } catch (...) { clear (_file.rdstate()); throw; }
+    }
     clear (_file.rdstate());
     return *this;
 }
diff --git a/ofstream.h b/ofstream.h
index 4412751..e8c5438 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { _file.open (filename, mode); clear (_file.rdstate()); }
+    void		open (const char* filename, openmode mode = out);
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From 6896c066b3158d98b35696d48f0be429115a7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 06/71] fix: ifstream refill dropped unread and already read
 bytes, and open kept bytes of the old file

---
 ofstream.cc | 45 ++++++++++++++++++++++++++++++++++++---------
 ofstream.h  |  3 ++-
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index d1456d3..9e25fef 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -156,36 +156,63 @@ void ifstream::set_buffer_size (size_type sz)
     link (_buffer.data(), streamsize(0));
 }
 
-/// Reads at least \p n more bytes and returns available bytes.
+/// Opens \p filename, discarding anything buffered from the old file.
+void ifstream::open (const char* filename, openmode mode)
+{
+    link (_buffer.data(), streamsize(0));
+    try { _file.open (filename, mode); } catch (...) { clear (_file.rdstate()); throw; }
+    clear (_file.rdstate());
+}
+
+/// Makes at least \p n bytes available, if possible, and returns the number of available bytes.
 ifstream::size_type ifstream::underflow (size_type n)
 {
     if (!_file.eof()) {
+	if (_file.fd() == STDIN_FILENO)
+	    cout.flush();
+
+	// Make space for n bytes, keeping what is not read yet and something to unget.
+	const size_type unread = remaining();
+	const size_type ungettable = min (pos(), uoff_t(s_ungetSize));
 	const ssize_t freeSpace = _buffer.size() - pos();
 	const ssize_t neededFreeSpace = max (n, _buffer.size() / 2);
 	const size_t oughtToErase = Align (max (0, neededFreeSpace - freeSpace));
-	const size_type nToErase = min (pos(), oughtToErase);
+	const size_type nToErase = min (pos() - ungettable, oughtToErase);
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
-	    link (_buffer.data(), streamsize(0));
+	size_type br = oldPos + unread;
+	link (_buffer.data(), br);
+	seek (oldPos);
+	if (_buffer.size() - oldPos < n) {
+	    _buffer.resize (oldPos + neededFreeSpace);
+	    link (_buffer.data(), br);
+	    seek (oldPos);
 	}
-	if (_file.fd() == STDIN_FILENO)
-	    cout.flush();
 
+	// No exceptions until the bytes read are in the stream.
+	const iostate oldExceptions = _file.exceptions();
+	_file.exceptions (goodbit);
 	size_type brn = 1;
 	for (; br < oldPos + n && brn && _file.good(); br += brn)
 	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	const int readErrno = errno;
+	_file.exceptions (oldExceptions);
 	clear (_file.rdstate());
 
 	_buffer[br] = 0;
 	link (_buffer.data(), br);
 	seek (oldPos);
+
+	if (!_file.eof() && (_file.rdstate() & oldExceptions)) {
+	    errno = readErrno;
+	    throw file_exception ("read", _file.name());
+	}
     }
-    if (_file.eof())
+    if (_file.eof() && n > remaining()) {
+	istringstream::setstate (eofbit);
 	verify_remaining ("read", _file.name(), n);
+    }
     return remaining();
 }
 
diff --git a/ofstream.h b/ofstream.h
index e8c5438..ce423b0 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -49,7 +49,7 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
+    void		open (const char* filename, openmode mode = in);
     inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
@@ -68,6 +68,7 @@ public:
     int			sync (void);
     virtual size_type	underflow (size_type n = 1) override;
 private:
+    enum { s_ungetSize = 8 };	///< Number of already read bytes kept in the buffer for unget.
     string		_buffer;
     fstream		_file;
 };
-- 
2.43.0


From 5009c7f1d2605ef0cb4348ec864637076f4f0c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 07/71] fix: ifstream::seekg ignored read-ahead when seeking
 from the current position and discarded it when failing

---
 ofstream.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 9e25fef..a985263 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -228,10 +228,16 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
-    _buffer.clear();
-    link (_buffer);
-    _file.seekg (p, d);
-    clear (_file.rdstate());
+    if (d == cur)
+	p -= remaining();	// The file position is after everything buffered.
+    off_t np;
+    try { np = _file.seek (p, d); } catch (...) { clear (_file.rdstate()); throw; }
+    if (np < 0)
+	setstate (failbit);
+    else {
+	link (_buffer.data(), streamsize(0));
+	clear (rdstate());	// The file may have seen the end or an error while reading ahead.
+    }
     return *this;
 }
 
-- 
2.43.0


From f2f920d25a1877489ff319feb0e3dbc747056ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 08/71] fix: text number extraction split numbers at buffer
 ends and read past the end of unterminated text

---
 sistream.cc | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 sistream.h  |  1 +
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 4081cc8..61e2ec9 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -6,6 +6,7 @@
 #include "sistream.h"
 #include "sostream.h"
 #include "ustring.h"
+#include <ctype.h>
 
 namespace ustl {
 
@@ -52,6 +53,14 @@ istringstream::istringstream (const cmemlink& source) noexcept
     set_delimiters (DEFAULT_DELIMITERS);
 }
 
+/// There is nothing after the end of the string.
+istringstream::size_type istringstream::underflow (size_type n)
+{
+    if (n > remaining())
+	setstate (eofbit);
+    return istream::underflow (n);
+}
+
 bool istringstream::is_delimiter (char c) const noexcept
 {
     return memchr (_delimiters, c, VectorSize(_delimiters)-1);
@@ -86,6 +95,14 @@ template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base,
 
 } //}}} namespace
 
+/// True if \p i may be a part of the number, or of the whitespace before it, at \p first.
+static inline bool is_number_char (istringstream::const_iterator first, istringstream::const_iterator i)
+{
+    if (isspace (static_cast<unsigned char>(*i)))
+	return i == first || isspace (static_cast<unsigned char>(i[-1]));
+    return isalnum (static_cast<unsigned char>(*i)) || *i == '+' || *i == '-' || *i == '.';
+}
+
 template <typename T>
 inline void istringstream::read_number (T& v)
 {
@@ -93,11 +110,32 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
-    iterator ilast;
-    do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
-	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+    // The number has to be in the buffer as a whole; it may end with the input.
+    size_type n = 0;
+    const iostate oldState (rdstate()), oldExceptions (exceptions());
+    exceptions (goodbit);
+    try {
+	do {
+	    while (n < remaining() && is_number_char (ipos(), ipos()+n))
+		++n;
+	} while (n == remaining() && underflow (n+1) > n);
+    } catch (...) {
+	exceptions (oldExceptions);
+	throw;
+    }
+    exceptions (oldExceptions);
+    if (n == remaining() && !eof()) {	// The rest of it could not be read.
+	underflow (n+1);
+	return;
+    }
+    clear (oldState);
+    // The input is not necessarily terminated.
+    const string num (ipos(), n);
+    const char* numEnd;
+    str_to_num<T> (num.c_str(), &numEnd, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+    skip (distance (num.c_str(), numEnd));
+    if (!remaining())
+	underflow();
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
diff --git a/sistream.h b/sistream.h
index 9070bdf..915a0a3 100644
--- a/sistream.h
+++ b/sistream.h
@@ -69,6 +69,7 @@ public:
     inline size_type		gcount (void) const		{ return _gcount; }
     inline istringstream&	seekg (off_t p, seekdir d =beg)	{ istream::seekg(p,d); return *this; }
     inline int			sync (void)			{ skip (remaining()); return 0; }
+    virtual size_type		underflow (size_type n = 1) override;
 protected:
     char			skip_delimiters (void);
 private:
-- 
2.43.0


From 42302707b11984d355262a4221a322df0d9ab7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 09/71] fix: istringstream getline, ignore, read, peek and bool
 extraction miscounted at the buffer end, at nuls and at the end of text

---
 sistream.cc | 24 ++++++++++++++----------
 sistream.h  |  2 +-
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 61e2ec9..58a1b77 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -166,9 +166,10 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
-	istream::iread (c);
-    ungetc();
+    for (const char* tv = tf[v]+1; *tv && (remaining() || underflow()) && *ipos() == *tv; ++tv)
+	skip (1);
+    if (!remaining())
+	underflow();
 }
 
 void istringstream::iread (string& v)
@@ -209,9 +210,8 @@ void istringstream::iread (string& v)
 istringstream& istringstream::read (void* buffer, size_type sz)
 {
     if (remaining() < sz && underflow(sz) < sz)
-	get (static_cast<char*>(buffer), sz, 0);
-    else
-	istream::read (buffer, _gcount = sz);
+	sz = remaining();
+    istream::read (buffer, _gcount = sz);
     return *this;
 }
 
@@ -261,7 +261,7 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
-    if (remaining() && ipos()[0] == delim) {
+    if ((remaining() || (_gcount+1 == n && underflow())) && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
     }
@@ -271,9 +271,13 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    size_type nRead = 0;
+    while (nRead < n && (remaining() || underflow())) {
+	++nRead;
+	if (get() == delim)
+	    break;
+    }
+    _gcount = nRead;
     return *this;
 }
 
diff --git a/sistream.h b/sistream.h
index 915a0a3..e01887c 100644
--- a/sistream.h
+++ b/sistream.h
@@ -61,7 +61,7 @@ public:
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline char			peek (void)	{ return (remaining() || underflow()) ? *ipos() : char(EOF); }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From 4a0e304c7f44f3edf69d09473c04e81c8dfb1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 10/71] fix: copy_backward_fast moved the wrong bytes, or ran
 away, on unaligned ranges

---
 ualgobase.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..f5dab8a 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);	// last byte of the dword below
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From efaf56c99e4e2206f7676d5e6d42c347b1019a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 11/71] fix: memblock::reserve on a linked block read past the
 data and could allocate less than it holds

---
 memblock.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..617e8fc 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -82,14 +82,18 @@ void memblock::reserve (size_type newSize, bool bExact)
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
+    if (!oldBlock)	// All of the linked data has to fit.
+	newSize = max (newSize, size() + minimumFreeCapacity());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
 	newSize = alignedSize;
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock & (cdata() != nullptr)) {
+	copy_n (cdata(), size(), newBlock);
+	fill_n (newBlock + size(), minimumFreeCapacity(), '\0');	// The linked data may be unterminated.
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From d0900be0fcbfdc1b1b33bc384275b051d631c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 12/71] fix: string::read_file left the string unterminated

---
 ustring.cc | 11 +++++++++++
 ustring.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..6df0d67 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -366,6 +366,17 @@ void string::read (istream& is)
     is.read (data(), size());
 }
 
+/// Reads the entire file \p filename.
+void string::read_file (const char* filename)
+{
+    try { memblock::read_file (filename); } catch (...) {
+	if (memblock::capacity())
+	    *end() = 0;		// may have been overwritten
+	throw;
+    }
+    *end() = 0;
+}
+
 /// Writes the object to stream \p os
 void string::write (ostream& os) const
 {
diff --git a/ustring.h b/ustring.h
index c13eac2..01e4252 100644
--- a/ustring.h
+++ b/ustring.h
@@ -213,6 +213,7 @@ public:
     int				vformat (const char* fmt, va_list args);
     int				format (const char* fmt, ...) __attribute__((__format__(__printf__, 2, 3)));
     void			read (istream&);
+    void			read_file (const char* filename);
     void			write (ostream& os) const;
     size_t			stream_size (void) const noexcept;
     static hashvalue_t		hash (const char* f1, const char* l1) noexcept;
-- 
2.43.0


From 1ae6ca402836d970618ed9ac3996794f064b81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 13/71] fix: string::shrink_to_fit dropped the terminator

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 617e8fc..598149d 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -103,10 +103,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newSize = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newSize));
+    if (!newBlock && newSize)
+	throw bad_alloc (newSize);
+    _capacity = newSize;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 006583ba1a8efe012e9136908e2b201140e53f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 14/71] fix: string::format hung formatting empty text into an
 empty string and lost the text when memory ran out

---
 ustring.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 6df0d67..2731083 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -327,12 +327,16 @@ int string::vformat (const char* fmt, va_list args)
     #undef __va_copy
     #define __va_copy(x,y)
 #endif
-    int rv = size(), wcap;
-    do {
-	__va_copy (args2, args);
-	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
-	resize (rv);
-    } while (rv >= wcap);
+    __va_copy (args2, args);
+    const int rv = vsnprintf (nullptr, 0, fmt, args2);
+#if HAVE_VA_COPY
+    va_end (args2);
+#endif
+    if (rv < 0)
+	return rv;
+    resize (rv);	// Before any text is overwritten, as this may throw.
+    if (rv)
+	vsnprintf (data(), rv+1, fmt, args);
     return rv;
 }
 
-- 
2.43.0


From 7443ac421ff2b04d29116297bae9d79dd15e4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 15/71] fix: ostringstream lost text after flush on a linked
 block and wrote into read-only initial text

---
 sostream.cc | 18 ++++++++++++++++++
 sostream.h  |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index eb44f16..3cbf2cf 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -34,6 +34,8 @@ ostringstream::ostringstream (const string& v)
 ,_fill (0)
 {
     exceptions (goodbit);
+    if (!_buffer.empty())
+	_buffer.copy_link();	// the text may be read-only
     ostream::link (_buffer);
 }
 
@@ -157,11 +159,27 @@ void ostringstream::link (void* p, size_type n) noexcept
     _buffer.link (p, n);
 }
 
+/// Sets the size of the text returned by str() to what has been written.
+ostream& ostringstream::flush (void)
+{
+    ostream::flush();
+    if (!_buffer.is_linked())
+	_buffer.resize (pos());
+    else {	// Keep using the linked block.
+	_buffer.relink (begin(), pos());
+	if (remaining())
+	    *ipos() = 0;
+    }
+    return *this;
+}
+
 /// Attempts to create more output space. Returns remaining().
 ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	if (_buffer.is_linked())	// then flush may have set its size to what was written at the time
+	    _buffer.relink (begin(), oldPos);
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 0c394c8..3161860 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&		flush (void) override;
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
-- 
2.43.0


From a3599b74df8dc51b935ca737611bb6185bbb7aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 16/71] fix: string::assign of repeated or wide characters lost
 the text when memory ran out

---
 ustring.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ustring.h b/ustring.h
index 01e4252..c3ec15f 100644
--- a/ustring.h
+++ b/ustring.h
@@ -113,12 +113,12 @@ public:
     inline string&		assign (const_iterator i1, const_iterator i2)	{ return assign (i1, distance (i1, i2)); }
     string&	    		assign (const_pointer s, size_type len);
     string&	    		assign (const_pointer s);
-    inline string&		assign (const_wpointer s1, const_wpointer s2)	{ clear(); return append (s1, s2); }
-    inline string&		assign (const_wpointer s1)			{ clear(); return append (s1); }
+    inline string&		assign (const_wpointer s1, const_wpointer s2)	{ const size_type osz = size(); append (s1, s2); return erase (pos_type(0), osz); }
+    inline string&		assign (const_wpointer s1)			{ const size_type osz = size(); append (s1); return erase (pos_type(0), osz); }
     inline string&		assign (const string& s)			{ return assign (s.begin(), s.end()); }
     inline string&		assign (const string& s, pos_type o, size_type n)	{ return assign (s.iat(o), s.iat(o+n)); }
-    inline string&		assign (size_type n, value_type c)		{ clear(); return append (n, c); }
-    inline string&		assign (size_type n, wvalue_type c)		{ clear(); return append (n, c); }
+    inline string&		assign (size_type n, value_type c)		{ resize (n); fill_n (begin(), n, c); return *this; }
+    inline string&		assign (size_type n, wvalue_type c)		{ const size_type osz = size(); append (n, c); return erase (pos_type(0), osz); }
     size_type			copy (pointer p, size_type n, pos_type pos = 0) const noexcept;
     inline size_type		copyto (pointer p, size_type n, pos_type pos = 0) const noexcept { size_type bc = copy(p,n-1,pos); p[bc]=0; return bc; }
     inline int			compare (const string& s) const		{ return compare (begin(), end(), s.begin(), s.end()); }
-- 
2.43.0


From 2619761ed2d87c8185509a92d7debed7c95f4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 17/71] fix: string::replace by text of the same length wrote
 into linked read-only text

---
 ustring.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 2731083..f6f4cb3 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -230,6 +230,11 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
 	rp = memblock::insert (rp, bti - bte);
+    else if (is_linked()) {	// copy-on-write
+	const uoff_t rpo = rp - memblock::begin();
+	copy_link();
+	rp = memblock::iat (rpo);
+    }
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From f93109bfbe41bca56e851abe8bc4c2213f568b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 18/71] fix: raw storage algorithms leaked the constructed
 elements when a constructor threw

---
 umemory.h | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..61fd7af 100644
--- a/umemory.h
+++ b/umemory.h
@@ -328,6 +328,25 @@ template <typename T>
 inline void construct (T* p)
     { construct_at(p); }
 
+template <typename ForwardIterator>
+inline void destroy (ForwardIterator first, ForwardIterator last) noexcept;
+
+/// Destroys the elements in [first, \p last) unless released. Used to undo
+/// the construction of a range when one of the constructors throws.
+template <typename ForwardIterator>
+class construction_guard {
+public:
+    inline explicit		construction_guard (const ForwardIterator& last)	: _first(last),_last(&last) {}
+    inline			~construction_guard (void) noexcept	{ if (_last) destroy (_first, *_last); }
+    inline void			release (void)				{ _last = nullptr; }
+private:
+				construction_guard (const construction_guard&);
+    void			operator= (const construction_guard&);
+private:
+    ForwardIterator		_first;
+    const ForwardIterator*	_last;
+};
+
 /// Calls the placement new on \p p.
 /// \ingroup RawStorageAlgorithms
 ///
@@ -341,9 +360,12 @@ inline void uninitialized_default_construct (ForwardIterator first, ForwardItera
     if (numeric_limits<value_type>::is_integral)
 #endif
 	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));
-    else
+    else {
+	construction_guard<ForwardIterator> g (first);
 	for (--last; intptr_t(first) <= intptr_t(last); ++first)
 	    construct_at (&*first);
+	g.release();
+    }
 }
 template <typename ForwardIterator>
 inline void uninitialized_default_construct_n (ForwardIterator first, size_t n)
@@ -357,8 +379,10 @@ template <typename ForwardIterator>
 inline void uninitialized_value_construct (ForwardIterator first, ForwardIterator last)
 {
     typedef typename iterator_traits<ForwardIterator>::value_type value_type;
+    construction_guard<ForwardIterator> g (first);
     for (--last; intptr_t(first) <= intptr_t(last); ++first)
 	construct_at (&*first, value_type());
+    g.release();
 }
 template <typename ForwardIterator>
 inline void uninitialized_value_construct_n (ForwardIterator first, size_t n)
@@ -440,8 +464,10 @@ inline pair<T*, ptrdiff_t> make_temporary_buffer (void* p, size_t n, const T* pt
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, ForwardIterator result)
 {
+    construction_guard<ForwardIterator> g (result);
     for (; first < last; ++result, ++first)
 	construct_at (&*result, *first);
+    g.release();
     return result;
 }
 
@@ -451,8 +477,10 @@ ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIterator result)
 {
+    construction_guard<ForwardIterator> g (result);
     for (++n; --n; ++result, ++first)
 	construct_at (&*result, *first);
+    g.release();
     return result;
 }
 
@@ -462,8 +490,10 @@ ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIter
 template <typename ForwardIterator, typename T>
 void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v)
 {
+    construction_guard<ForwardIterator> g (first);
     for (; first < last; ++first)
 	construct_at (&*first, v);
+    g.release();
 }
 
 /// Calls construct on all elements in [first, first + n) with value \p v.
@@ -472,8 +502,10 @@ void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v
 template <typename ForwardIterator, typename T>
 ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T& v)
 {
+    construction_guard<ForwardIterator> g (first);
     for (++n; --n; ++first)
 	construct_at (&*first, v);
+    g.release();
     return first;
 }
 
@@ -485,8 +517,10 @@ ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T&
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move (InputIterator first, InputIterator last, ForwardIterator result)
 {
+    construction_guard<ForwardIterator> g (result);
     for (; first < last; ++result, ++first)
 	construct_at (&*result, move(*first));
+    g.release();
     return result;
 }
 
@@ -496,8 +530,10 @@ ForwardIterator uninitialized_move (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move_n (InputIterator first, size_t n, ForwardIterator result)
 {
+    construction_guard<ForwardIterator> g (result);
     for (++n; --n; ++result, ++first)
 	construct_at (&*result, move(*first));
+    g.release();
     return result;
 }
 
-- 
2.43.0


From 1a61c82588e0ee919a696f3de56e3a75cc6bdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 19/71] fix: vector counted an element whose constructor threw
 and destroyed or leaked it

---
 uvector.h | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/uvector.h b/uvector.h
index 4e33096..4ab83fc 100644
--- a/uvector.h
+++ b/uvector.h
@@ -121,6 +121,18 @@ public:
 protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
 private:
+    /// Closes the hole if constructing the elements in it throws.
+    class hole_guard {
+    public:
+	inline			hole_guard (memblock& m, iterator hp, size_type n)	: _m(m),_hp(hp),_n(n) {}
+	inline			~hole_guard (void) noexcept	{ if (_n) _m.erase (memblock::iterator(_hp), _n*sizeof(T)); }
+	inline iterator		begin (void) const		{ return _hp; }
+	inline void		release (void)			{ _n = 0; }
+    private:
+	memblock&		_m;
+	iterator		_hp;
+	size_type		_n;
+    };
     inline iterator		insert_hole (const_iterator ip, size_type n);
     inline iterator		append_hole (size_type n);
     void			destroy_all (void)
@@ -267,7 +279,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip, size_type n)
 {
     iterator ih = insert_hole (ip, n);
+    hole_guard h (_data, ih, n);
     uninitialized_default_construct_n (ih, n);
+    h.release();
     return ih;
 }
 
@@ -276,7 +290,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
     iterator d = insert_hole (ip, n);
+    hole_guard h (_data, d, n);
     uninitialized_fill_n (d, n, v);
+    h.release();
     return d;
 }
 
@@ -285,7 +301,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
     iterator d = insert_hole (ip, 1);
+    hole_guard h (_data, d, 1);
     construct_at (d, v);
+    h.release();
     return d;
 }
 
@@ -295,7 +313,9 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const_
 {
     assert (i1 <= i2);
     iterator d = insert_hole (ip, distance (i1, i2));
+    hole_guard h (_data, d, distance (i1, i2));
     uninitialized_copy (i1, i2, d);
+    h.release();
     return d;
 }
 
@@ -320,7 +340,9 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
-    construct_at (append_hole(1), v);
+    reserve (size() + 1);
+    construct_at (end(), v);
+    append_hole (1);
 }
 
 #if HAVE_CPP11
@@ -330,7 +352,10 @@ template <typename T>
 template <typename... Args>
 inline typename vector<T>::iterator vector<T>::emplace (const_iterator ip, Args&&... args)
 {
-    return new (insert_hole(ip,1)) T (forward<Args>(args)...);
+    hole_guard h (_data, insert_hole(ip,1), 1);
+    iterator d = new (h.begin()) T (forward<Args>(args)...);
+    h.release();
+    return d;
 }
 
 /// Constructs value at the end of the vector.
@@ -338,7 +363,9 @@ template <typename T>
 template <typename... Args>
 inline void vector<T>::emplace_back (Args&&... args)
 {
-    new (append_hole(1)) T (forward<Args>(args)...);
+    reserve (size() + 1);
+    new (end()) T (forward<Args>(args)...);
+    append_hole (1);
 }
 
 #endif
-- 
2.43.0


From 45d95d8fbb2dbc24958ed17561351d5344883351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 20/71] fix: queue, stack and priority_queue could not be
 swapped or move assigned, and a copied queue held popped elements again

---
 uheap.h  | 2 +-
 uqueue.h | 4 ++--
 ustack.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..02f6d8a 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
diff --git a/uqueue.h b/uqueue.h
index 5701e2c..a38fe36 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From e0bb71cae749e15e79ebc432d11dfbd3aa8f1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 21/71] fix: set::insert of a temporary with a hint and
 emplace_hint did not compile

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From f4b74365ed0ba832484994e428b73e454fb14a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 22/71] fix: vectors of equal elements compared unequal when
 the elements hold pointers or padding

---
 uvector.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 4ab83fc..69af5a8 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    bool			operator== (const vector& v) const;
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
@@ -265,6 +265,18 @@ inline const vector<T>& vector<T>::operator= (const vector<T>& v)
     return *this;
 }
 
+/// Returns true if the elements are equal to the elements of \p v.
+template <typename T>
+bool vector<T>::operator== (const vector<T>& v) const
+{
+    if (size() != v.size())
+	return false;
+    for (const_iterator i1 = begin(), i2 = v.begin(); i1 < end(); ++i1, ++i2)
+	if (!(*i1 == *i2))
+	    return false;
+    return true;
+}
+
 /// Inserts \p n uninitialized elements at \p ip.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_hole (const_iterator ip, size_type n)
-- 
2.43.0


From 2160e4f024a342762315eec4db997aa77b076af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 23/71] fix: queues of equal elements compared unequal after
 different pops

---
 uqueue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index a38fe36..f494b3e 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -39,7 +39,14 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    bool			operator== (const queue& s) const {
+				    if (size() != s.size())
+					return false;
+				    for (size_type i = 0; i < size(); ++i)
+					if (!(_storage[_front+i] == s._storage[s._front+i]))
+					    return false;
+				    return true;
+				}
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From e95f54b738c72df0049d1560692fbdcf012ea027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 24/71] fix: priority_queue::pop ignored the comparison and
 construction from a container did not make a heap

---
 uheap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uheap.h b/uheap.h
index 02f6d8a..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,18 +135,18 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From e85e50bdf065e0d2bec4bf859d524b862768c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 25/71] fix: shared_ptr use_count and copy assignment did not
 compile, move assignment kept the old object, and a failed allocation leaked
 the object

---
 umemory.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/umemory.h b/umemory.h
index 61fd7af..70859a0 100644
--- a/umemory.h
+++ b/umemory.h
@@ -172,27 +172,28 @@ private:
 	inline constexpr explicit container (pointer np) : p(np),refs(1) {}
 	inline	~container (void) noexcept { assert (!refs); delete p; }
     };
+    static container*		own (pointer p)			{ try { return new container (p); } catch (...) { delete p; throw; } }
 public:
     inline constexpr		shared_ptr (void)		: _p (nullptr) {}
-    inline explicit		shared_ptr (pointer p)		: _p (new container (p)) {}
+    inline explicit		shared_ptr (pointer p)		: _p (own (p)) {}
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
 				    assert (p != get() || !p);
 				    auto ov = _p;
-				    _p = p ? new container(p) : nullptr;
+				    _p = p ? own(p) : nullptr;
 				    if (ov && !--ov->refs)
 					delete ov;
 				}
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-    inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (shared_ptr&& p)	{ shared_ptr (move(p)).swap (*this); return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr (p).swap (*this); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From d52e13b03f40500913807fa9f27032cbb451aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 26/71] fix: atomic operators returned the atomic, so that
 their result was read a second time, which let two owners of a shared_ptr
 both destroy the object

---
 uatomic.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..6075b02 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -66,16 +66,16 @@ public:
     inline T		xor_fetch (T v, memory_order order = memory_order_seq_cst )
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
-    inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
-    inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-    inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
-    inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-    inline atomic&	operator|= (T v)	{  or_fetch (v); return *this; }
-    inline atomic&	operator^= (T v)	{ xor_fetch (v); return *this; }
+    inline T		operator= (T v)		{ store(v); return v; }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
+    inline T		operator+= (T v)	{ return add_fetch (v); }
+    inline T		operator-= (T v)	{ return sub_fetch (v); }
+    inline T		operator&= (T v)	{ return and_fetch (v); }
+    inline T		operator|= (T v)	{ return or_fetch (v); }
+    inline T		operator^= (T v)	{ return xor_fetch (v); }
 };
 #define ATOMIC_VAR_INIT	{0}
 
-- 
2.43.0


From 221bcae49e9e33f8c60fd6bee881ba55ec37c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 27/71] fix: backtraces crashed when copied or printed without
 symbols, leaked when assigned and read past shared library names

---
 bktrace.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..1f4354f 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,10 +37,15 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (&v == this)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
+    nfree (_symbols);
+    _symbols = static_cast<char*>(v._symbols ? malloc (v._symbolsSize + 1) : nullptr);
     _nFrames = v._nFrames;
-    _symbolsSize = v._symbolsSize;
+    _symbolsSize = _symbols ? v._symbolsSize : 0;
+    if (_symbols)
+	memcpy (_symbols, v._symbols, _symbolsSize + 1);
     return *this;
 }
 
@@ -54,7 +59,7 @@ static size_t ExtractAbiName (const char* isym, char* nmbuf) noexcept
 	const char* mnStart = strchr (isym, '(');
 	if (++mnStart == reinterpret_cast<const char*>(1))
 	    mnStart = isym;
-	const char* mnEnd = strchr (isym, '+');
+	const char* mnEnd = strchr (mnStart, '+');
 	const char* isymEnd = isym + strlen (isym);
 	if (!mnEnd)
 	    mnEnd = isymEnd;
@@ -100,7 +105,12 @@ void CBacktrace::text_write (ostringstream& os) const
     const char *ss = _symbols, *se;
     for (uoff_t i = 0; i < _nFrames; ++ i) {
 	os.format (ADDRESS_FMT, _addresses[i]);
-	se = strchr (ss, '\n') + 1;
+	se = ss ? strchr (ss, '\n') : nullptr;
+	if (!se) {	// no memory for the symbols
+	    os << '\n';
+	    continue;
+	}
+	++se;
 	os.write (ss, distance (ss, se));
 	ss = se;
     }
-- 
2.43.0


From d6fddcc5b612cc07c6b12aef57b971e53584e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 28/71] fix: reading a backtrace trusted its sizes and crashed
 when memory for the symbols was not available

---
 bktrace.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 1f4354f..2c78b0d 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -120,13 +120,24 @@ void CBacktrace::text_write (ostringstream& os) const
 void CBacktrace::read (istream& is)
 {
     assert (is.aligned (stream_align_of (_addresses[0])) && "Backtrace object contains pointers and must be void* aligned");
-    is >> _nFrames >> _symbolsSize;
+    uint32_t nFrames = 0, symbolsSize = 0;
+    is >> nFrames >> symbolsSize;
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", symbolsSize))
+	return;
     nfree (_symbols);
-    _symbols = static_cast<char*> (malloc (_symbolsSize + 1));
-    is.read (_symbols, _symbolsSize);
-    _symbols [_symbolsSize] = 0;
+    _nFrames = _symbolsSize = 0;
+    if ((_symbols = static_cast<char*> (malloc (size_t(symbolsSize) + 1)))) {
+	memcpy (_symbols, is.ipos(), symbolsSize);
+	_symbols [symbolsSize] = 0;
+	_symbolsSize = symbolsSize;
+    }
+    is.skip (symbolsSize);
     is.align();
-    is.read (_addresses, _nFrames * sizeof(void*));
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", nFrames * sizeof(void*)))
+	return;
+    _nFrames = min (nFrames, uint32_t(VectorSize(_addresses)));
+    memcpy (_addresses, is.ipos(), _nFrames * sizeof(void*));
+    is.skip (nFrames * sizeof(void*));
 }
 
 /// Writes the object to stream \p os.
-- 
2.43.0


From 5e4c1d79571096a5836b05704a2d5ec3922dc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 29/71] fix: bad_alloc described sizes above 2G as negative or
 truncated

---
 uexception.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..bc8496a 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -100,10 +100,10 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
     set_format (ustl::xfmt_BadAlloc);
 }
 
-/// Returns a descriptive error message. fmt="failed to allocate %d bytes"
+/// Returns a descriptive error message. fmt="failed to allocate %zu bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
-- 
2.43.0


From 9844e8088b62f65d7eaf34ad4a2a01581dd90160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 30/71] fix: read_strz moved past the end of the stream when
 there was no terminator

---
 mistream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..96039f0 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,8 +48,10 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
+    if (zp == end()) {
+	verify_remaining ("read", "string", remaining() + 1);
+	return;
+    }
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From fb2c5a432cc1dd05fe787014b182282b9094c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 31/71] fix: containers of pairs could not be read back when
 the written padding was smaller than stream_size assumed

---
 uctrstrm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uctrstrm.h b/uctrstrm.h
index a470565..947c26f 100644
--- a/uctrstrm.h
+++ b/uctrstrm.h
@@ -70,7 +70,9 @@ istream& container_read (istream& is, Container& v)
     typedef typename Container::written_size_type written_size_type;
     written_size_type n = 0;
     is >> n;
-    const size_t expectedSize = n * stream_size_of(value_type());
+    // Objects may contain padding that stream_size counts, but which is not always needed where they are written.
+    const size_t elementSize = stream_size_of(value_type());
+    const size_t expectedSize = n * (numeric_limits<value_type>::is_integral ? elementSize : size_t(!!elementSize));
     if (!is.verify_remaining ("read", typeid(v).name(), expectedSize))
 	return is;
     if (stream_align_of(NullValue<value_type>()) > stream_align_of(n))
-- 
2.43.0


From fe2011d7604fbdd962fef6415bcb4df0b5833aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 32/71] fix: ostringstream width and left alignment, link on a
 grown stream; ostream::insert checks for space

The digits of field widths and precisions of 10 and more were written in
reverse. The left alignment flag came after the width, making an invalid
format. Linking a stream to another block leaked its own. ostream::insert
did not check that the inserted space fits in the block.
---
 mistream.cc |  2 ++
 sostream.cc | 16 ++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index 96039f0..7d54705 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -114,6 +114,8 @@ void ostream::text_write (ostringstream& os) const
 /// Inserts an empty area of \p size, at \p start.
 void ostream::insert (iterator start, size_type s)
 {
+    if (!verify_remaining ("insert", "space", s))
+	return;
     _pos += s;
     memlink::insert (start, s);
 }
diff --git a/sostream.cc b/sostream.cc
index 3cbf2cf..44034df 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -66,9 +66,11 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
+    char* first = fmt;
     do {
 	*fmt++ = '0' + n % 10;
     } while (n /= 10);
+    reverse (first, fmt);
     return fmt;
 }
 
@@ -76,11 +78,6 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -88,7 +85,13 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width) {
+	if (_fill == '0')
+	    *fmt++ = '0';
+	fmt = encode_dec (fmt, _width);
+    }
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
@@ -156,6 +159,7 @@ void ostringstream::link (void* p, size_type n) noexcept
 {
     assert ((p || !n) && "The output string buffer must not be read-only");
     ostream::link (p, n);
+    _buffer.deallocate();
     _buffer.link (p, n);
 }
 
-- 
2.43.0


From f5d9640cfc3c1f22f9664ed4480a0ca4318c252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 33/71] fix: chrono::hrtime_t arithmetic on negative values,
 increment and division

Incrementing did not carry out of the nanoseconds, division added the
seconds' remainder undivided, and values made from or multiplied by
negative numbers had negative nanoseconds, which compare wrong.
---
 uchrono.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..0f465f8 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -180,16 +180,16 @@ struct hrtime_t : public timespec {
     constexpr hrtime_t&		operator= (const hrtime_t&) = default;
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
-    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{}
+    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den - (v%nano::den < 0)),time_t(v%nano::den + (v%nano::den < 0)*nano::den)}{}
     inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
-    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
+    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec-(tv_nsec > 0),tv_nsec > 0 ? nano::den-tv_nsec : 0); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
@@ -227,13 +227,13 @@ struct hrtime_t : public timespec {
 					tv_sec += tv_nsec / nano::den;
 					tv_nsec %= nano::den;
 				    }
-				    return *this;
+				    return normalize();
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
 				    tv_nsec += (tv_sec % v) * nano::den;
+				    tv_nsec /= v;
 				    tv_sec /= v;
-				    return *this;
+				    return normalize();
 				}
     inline constexpr hrtime_t	operator+ (const hrtime_t& v) const	{ hrtime_t r(*this); return r += v; }
     inline constexpr hrtime_t	operator- (const hrtime_t& v) const	{ hrtime_t r(*this); return r -= v; }
@@ -245,6 +245,18 @@ struct hrtime_t : public timespec {
     inline void			write (ostream& os) const		{ os << tv_sec << tv_nsec; }
     void			text_write (ostringstream& os) const	{ os.format ("%ld.%09ld", tv_sec, tv_nsec); }
     inline constexpr streamsize	stream_size (void) const		{ return stream_size_of(tv_sec) + stream_size_of(tv_nsec); }
+private:
+    /// After multiplying or dividing negative values, makes tv_nsec positive.
+    constexpr hrtime_t&		normalize (void) {
+				    if (tv_nsec < 0) {
+					tv_sec += tv_nsec / nano::den;
+					if (0 > (tv_nsec %= nano::den)) {
+					    tv_nsec += nano::den;
+					    --tv_sec;
+					}
+				    }
+				    return *this;
+				}
 };
 
 // numeric_limits<hrtime_t>::min,max will always return 0
-- 
2.43.0


From a91c859e2c3aa7154ee9ecb20ec068b7314583b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 34/71] fix: string::rfind, find_last_of and find_last_not_of
 read far out of bounds on an empty string, and rfind missed text at the first
 two positions

---
 ustring.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index f6f4cb3..fa631f1 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -267,7 +267,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (size_type i = pos < size() ? pos+1 : size(); i--;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -276,14 +276,10 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    for (size_type e = min (size_type(pos), size()); e >= s.size() && !s.empty(); --e)
+	if (memcmp (begin() + (e - s.size()), s.begin(), s.size()) == 0)
+	    return e - s.size();
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
@@ -307,7 +303,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -316,7 +312,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 2cb4c8bea54b88886819aa42b2ff61cc2ec54da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 35/71] fix: replace_copy and replace_copy_if return the end of
 the result (they could not be instantiated)

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index c95b699..c93d539 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..242de25 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From afc60a531d6b8d6f476e5bfd96297be9fb2fce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 36/71] fix: move_iterator advanced backwards under + and -,
 its difference had the wrong sign, and it needed a later header

---
 uiterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..dd37ebe 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -307,10 +307,10 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
+    constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From a9643dc34ede2c1c439c20b6c355f9aac51b6df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 37/71] fix: the difference of two reverse_iterators had the
 wrong sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index dd37ebe..6fbf9fe 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From 86d7f4caf0608ac0c13c1f3c78b1fc4a4fb99fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 38/71] fix: copy_backward of bytes returned the end of the
 result instead of its beginning

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..cb0ef34 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - distance (first, last);
 }
 
 template <typename T>
-- 
2.43.0


From 25a7bb210c1b7c62f5a78b207ade57c09ea32107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 39/71] fix: partial_sum read the unwritten element of the
 result under C++14 evaluation order

---
 unumeric.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..5593d93 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -72,8 +72,10 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 {
     if (first < last)
 	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+    while (first < last) {
+	const OutputIterator prev (result);
+	*++result = *first++ + *prev;
+    }
     return result;
 }
 
@@ -85,8 +87,10 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 {
     if (first < last)
 	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+    while (first < last) {
+	const OutputIterator prev (result);
+	*++result = sumOp (*first++, *prev);
+    }
     return result;
 }
 
-- 
2.43.0


From f674c3ecedb57f425a1c0d6f21fcf4f891faa351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 40/71] fix: adjacent_difference never advanced and wrote past
 the result

---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index 5593d93..ab85f86 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -102,7 +102,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -115,7 +115,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From 140988bf59f7394840a84ebb72e7abef5be77bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 41/71] fix: find_end never looked at the beginning of the
 range

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 242de25..2a6ae2d 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -298,7 +298,7 @@ template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryP
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
     ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
+    for (; !(s < first1); --s) {
 	ForwardIterator2 i = first2, j = s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
-- 
2.43.0


From 488b2566d7f3d5a19143fa4c37b1a0d7f83a3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 42/71] fix: binary_search with an order found values that are
 not there

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 2a6ae2d..a39115d 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -225,7 +225,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From fd6d67bf22e41c85bd8742b4ee1f46f9b963476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 43/71] fix: <= and >= between a string and a text compared
 addresses

There was no operator for these, so the template did not apply and the
string was converted to a pointer. Text on the left had the same problem,
because PTR_STRING_CMP turns the operands around.
---
 ustring.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.h b/ustring.h
index c3ec15f..f0fc7e1 100644
--- a/ustring.h
+++ b/ustring.h
@@ -154,6 +154,8 @@ public:
     inline bool			operator< (value_type c) const		{ return 0 > compare (begin(), end(), &c, &c + 1); }
     inline bool			operator< (uvalue_type c) const		{ return operator< (value_type(c)); }
     inline bool			operator> (const_pointer s) const	{ return 0 < compare (s); }
+    inline bool			operator<= (const_pointer s) const	{ return 0 >= compare (s); }
+    inline bool			operator>= (const_pointer s) const	{ return 0 <= compare (s); }
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-- 
2.43.0


From 3c3e7ff404af2266a24937d1f2af01da41ea5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 44/71] fix: distance between characters counted the first one
 twice

utf8in_iterator keeps its position on the last byte of its character; if the
left operand's character takes more than one byte, its first byte is already
before that position and was counted as one more character.
---
 utf8.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..42c3373 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,7 +140,8 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
+    const Iterator lastChar (base());
+    for (Iterator first (last._i); first < lastChar; ++dist)
 	advance (first, Utf8SequenceBytes (*first));
     return dist;
 }
-- 
2.43.0


From f749b15dbb34b46a8d5af4cbcd565e7109b27631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 45/71] fix: elements of a vector inserted into itself were
 read after they had moved

---
 ulist.h   | 13 ++++++++++++-
 uvector.h | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/ulist.h b/ulist.h
index a911529..57cd2a6 100644
--- a/ulist.h
+++ b/ulist.h
@@ -37,7 +37,7 @@ public:
     inline void			pop_front (void)		{ this->erase (begin()); }
     inline const_reference	front (void) const		{ return *begin(); }
     inline reference		front (void)			{ return *begin(); }
-    inline void			remove (const T& v)		{ ::ustl::remove (*this, v); }
+    inline void			remove (const T& v);
     template <typename Predicate>
     inline void			remove_if (Predicate p)		{ ::ustl::remove_if (*this, p); }
     inline void			reverse (void)			{ ::ustl::reverse (*this); }
@@ -55,6 +55,17 @@ public:
 #endif
 };
 
+/// Removes all elements equal to \p v, which may be one of them.
+template <typename T>
+inline void list<T>::remove (const T& v)
+{
+    if (this->is_element (v)) {	// will be overwritten
+	const T vc (v);
+	return remove (vc);
+    }
+    ::ustl::remove (*this, v);
+}
+
 /// Merges the contents with \p l. Assumes both lists are sorted.
 template <typename T>
 void list<T>::merge (list& l)
diff --git a/uvector.h b/uvector.h
index 69af5a8..87db99c 100644
--- a/uvector.h
+++ b/uvector.h
@@ -120,6 +120,7 @@ public:
 #endif
 protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
+    inline bool			is_element (const T& v) const	{ return &v >= begin() && &v < end(); }
 private:
     /// Closes the hole if constructing the elements in it throws.
     class hole_guard {
@@ -176,6 +177,10 @@ void vector<T>::resize (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n, const_reference v)
 {
+    if (is_element (v)) {	// may be moved or destroyed
+	const T vc (v);
+	return resize (n, vc);
+    }
     size_type nb = n*sizeof(T);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
@@ -253,6 +258,10 @@ inline void vector<T>::assign (const_iterator i1, const_iterator i2)
 template <typename T>
 inline void vector<T>::assign (size_type n, const T& v)
 {
+    if (is_element (v)) {	// may be moved or destroyed
+	const T vc (v);
+	return assign (n, vc);
+    }
     resize (n);
     ::ustl::fill (begin(), end(), v);
 }
@@ -301,6 +310,10 @@ inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip,
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
+    if (is_element (v)) {	// will be moved
+	const T vc (v);
+	return insert (ip, n, vc);
+    }
     iterator d = insert_hole (ip, n);
     hole_guard h (_data, d, n);
     uninitialized_fill_n (d, n, v);
@@ -312,6 +325,10 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_t
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
+    if (is_element (v)) {	// will be moved
+	const T vc (v);
+	return insert (ip, vc);
+    }
     iterator d = insert_hole (ip, 1);
     hole_guard h (_data, d, 1);
     construct_at (d, v);
@@ -352,6 +369,10 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
+    if (is_element (v)) {	// may be moved
+	const T vc (v);
+	return push_back (vc);
+    }
     reserve (size() + 1);
     construct_at (end(), v);
     append_hole (1);
-- 
2.43.0


From 138c351746ac68dcaed80498ce5f2587570197ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 46/71] fix: a string appended or assigned to itself read its
 own text after it had moved

---
 ustring.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index fa631f1..6508501 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -66,8 +66,13 @@ string& string::assign (const_pointer s)
 /// Assigns itself the value of string \p s of length \p len.
 string& string::assign (const_pointer s, size_type len)
 {
-    resize (len);
-    copy_n (s, len, begin());
+    if (!is_linked() && s >= begin() && s < end()) {	// a part of this string, must be moved before the cut
+	memmove (begin(), s, len);
+	resize (len);
+    } else {
+	resize (len);
+	copy_n (s, len, begin());
+    }
     return *this;
 }
 
@@ -82,8 +87,10 @@ string& string::append (const_pointer s)
 /// Appends to itself the value of string \p s of length \p len.
 string& string::append (const_pointer s, size_type len)
 {
+    const bool own = !is_linked() && s >= begin() && s < end();	// a part of this string, which may be moved
+    const pos_type so = own ? distance (begin(), s) : 0;
     resize (size() + len);
-    copy_n (s, len, end() - len);
+    copy_n (own ? iat(so) : s, len, end() - len);
     return *this;
 }
 
-- 
2.43.0


From d920f55bd72c773fcbd5933c95a9ab26d1cd18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 47/71] fix: uninitialized_move and
 uninitialized_value_construct did not compile for class types

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 70859a0..8688f5d 100644
--- a/umemory.h
+++ b/umemory.h
@@ -322,7 +322,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move(value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 7df732314e4134835f28609ec7bd54e608659a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 48/71] fix: set and multiset find compared keys with ==
 instead of the set's order

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 6bac1972a6a8743ef74c58e03089d3a25b96e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 49/71] fix: inserting a string at a position inserted it as
 many times as it has characters

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index f0fc7e1..5cbc4ca 100644
--- a/ustring.h
+++ b/ustring.h
@@ -159,7 +159,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 7032b1a9674523a48cf76027e72cf48450ac0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 50/71] fix: unsigned long numbers above LONG_MAX could not be
 read from text

---
 sistream.cc | 8 ++++++++
 sistream.h  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 58a1b77..fb20200 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -86,12 +86,18 @@ typedef istringstream::iterator issiter_t;
 template <typename T>
 inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
+    { v = strtoul (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
 #if HAVE_LONG_LONG && SIZE_OF_LONG_LONG > SIZE_OF_LONG
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, long long& v)
     { v = strtoll (i, const_cast<char**>(iend), base); }
 #endif
+#if HAVE_LONG_LONG
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long long& v)
+    { v = strtoull (i, const_cast<char**>(iend), base); }
+#endif
 
 } //}}} namespace
 
@@ -141,8 +147,10 @@ inline void istringstream::read_number (T& v)
 void istringstream::iread (int& v)		{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
 void istringstream::iread (long& v)		{ read_number (v); }
+void istringstream::iread (unsigned long& v)	{ read_number (v); }
 #if HAVE_LONG_LONG
 void istringstream::iread (long long& v)	{ read_number (v); }
+void istringstream::iread (unsigned long long& v)	{ read_number (v); }
 #endif
 
 void istringstream::iread (wchar_t& v)
diff --git a/sistream.h b/sistream.h
index e01887c..0004b92 100644
--- a/sistream.h
+++ b/sistream.h
@@ -37,13 +37,13 @@ public:
     inline void			iread (short& v)		{ int c; iread(c); v = c; }
     inline void			iread (unsigned short& v)	{ int c; iread(c); v = c; }
     void			iread (long& v);
-    inline void			iread (unsigned long& v)	{ long c; iread(c); v = c; }
+    void			iread (unsigned long& v);
 #if HAVE_THREE_CHAR_TYPES
     void			iread (signed char& v)		{ char c; iread(c); v = c; }
 #endif
 #if HAVE_LONG_LONG
     void			iread (long long& v);
-    inline void			iread (unsigned long long& v)	{ long long c; iread(c); v = c; }
+    void			iread (unsigned long long& v);
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-- 
2.43.0


From 3d88e5f3244aeff262b573b44012217ed52cfd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 51/71] fix: a backtrace overran its symbol buffer when
 demangling first failed for want of memory

---
 bktrace.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 2c78b0d..f56ff18 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -83,8 +83,9 @@ void CBacktrace::GetSymbols (void) noexcept
     for (uoff_t i = 0; i < _nFrames; ++ i)
 	symSize += ExtractAbiName (symbols[i], nmbuf) + 1;
     if ((_symbols = static_cast<char*>(calloc (symSize, 1)))) {
-	for (uoff_t i = 0; _symbolsSize < symSize - 1; ++ i) {
-	    size_t sz = ExtractAbiName (symbols[i], nmbuf);
+	for (uoff_t i = 0; i < _nFrames && _symbolsSize < symSize - 1; ++ i) {
+	    // A name gets longer if there was no memory to demangle it the first time
+	    size_t sz = min (ExtractAbiName (symbols[i], nmbuf), symSize - _symbolsSize - 2);
 	    memcpy (_symbols + _symbolsSize, nmbuf, sz);
 	    _symbolsSize += sz + 1;
 	    _symbols [_symbolsSize - 1] = '\n';
-- 
2.43.0


From 8e18d096860e1e271ac7552cdcfe32593bd7fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 52/71] fix: demangling a name longer than 255 characters freed
 a buffer on the stack

---
 uexception.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index bc8496a..3fbb71a 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -70,15 +70,14 @@ const char* demangle_type_name (char* buf, size_t bufSize, size_t* pdmSize) noex
 {
     size_t bl = strlen (buf);
 #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
-    char dmname [256];
-    size_t sz = VectorSize(dmname);
     int bFailed;
-    __cxa_demangle (buf, dmname, &sz, &bFailed);
+    char* dmname = __cxa_demangle (buf, nullptr, nullptr, &bFailed);
     if (!bFailed) {
 	bl = min (strlen (dmname), bufSize - 1);
 	memcpy (buf, dmname, bl);
 	buf[bl] = 0;
     }
+    nfree (dmname);
 #else
     bl = min (bl, bufSize);
 #endif
-- 
2.43.0


From e42c1d0ccb5b1be465e4030e0e136174a3a07afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 53/71] fix: auto_ptr operator< compared in the opposite order

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 8688f5d..1504f15 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From 81a0375e89e55dbf488e0c33f60c5b36fe8c6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 54/71] fix: moving an empty array unique_ptr into an empty one
 failed an assertion

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 1504f15..fe69b7d 100644
--- a/umemory.h
+++ b/umemory.h
@@ -112,7 +112,7 @@ public:
     inline			~unique_ptr (void)		{ delete [] _p; }
     inline constexpr pointer	get (void) const		{ return _p; }
     inline pointer			release (void)			{ auto rv (_p); _p = nullptr; return rv; }
-    inline void			reset (pointer p)		{ assert (p != _p); auto ov (_p); _p = p; delete [] ov; }
+    inline void			reset (pointer p = nullptr)	{ assert (p != _p || !p); auto ov (_p); _p = p; delete [] ov; }
     inline void			swap (unique_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return _p != nullptr; }
     inline unique_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-- 
2.43.0


From 5e65cb86dd54860299b3b1b6d6e30148c2c23aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 55/71] fix: the difference of index iterators had the wrong
 sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 6fbf9fe..c5cfa62 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From 33e6578c0c3b15b72da051c815066ee223746a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 56/71] fix: inserting through a post-incremented
 insert_iterator used freed memory

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index c5cfa62..dd07a45 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++ _ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From 8fb5bcc5aa196962edb03e01a69dcf1f236ebdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:54 +0000
Subject: [PATCH 57/71] fix: the difference of istream iterators was wrong when
 negative

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 4e32a1f..043c942 100644
--- a/mistream.h
+++ b/mistream.h
@@ -144,7 +144,7 @@ public:
     inline istream_iterator&	operator+= (streamsize n)	{ while (n--) operator++(); return *this; }
     inline istream_iterator&	operator-= (streamsize n)	{ _pis->seek (_pis->pos() - (n + 1) * stream_size_of(_v)); return operator++(); }
     inline istream_iterator	operator- (streamoff n) const			{ istream_iterator result (*this); return result -= n; }
-    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / stream_size_of(_v); }
+    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / difference_type (stream_size_of(_v)); }
     constexpr bool		operator== (const istream_iterator& i) const	{ return (!_pis && !i._pis) || (_pis && i._pis && _pis->pos() == i._pis->pos()); }
     constexpr bool		operator< (const istream_iterator& i) const	{ return !i._pis || (_pis && _pis->pos() < i._pis->pos()); }
 private:
-- 
2.43.0


From af45db589b45450bd931a2c30b0b639a0c98a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:42 +0000
Subject: [PATCH 58/71] fix: multisets and priority queues could not be swapped
 or returned (explicit move constructors)

---
 uheap.h     | 2 +-
 umultiset.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index 2a3ee67..67905ab 100644
--- a/uheap.h
+++ b/uheap.h
@@ -145,7 +145,7 @@ public:
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
-    constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
+    constexpr			priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
diff --git a/umultiset.h b/umultiset.h
index 1923d2f..7988eb2 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -68,7 +68,7 @@ public:
     inline void			swap (multiset& v)			{ base_class::swap (v); }
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline explicit		multiset (multiset&& v)			: base_class (move(v)) {}
+    inline			multiset (multiset&& v)			: base_class (move(v)) {}
     inline			multiset (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline multiset&		operator= (multiset&& v)		{ base_class::operator= (move(v)); return *this; }
     inline iterator		insert (T&& v)				{ return base_class::insert (upper_bound(v), move(v)); }
-- 
2.43.0


From 5b20e6e4e455c0e8f7350b5b6a83736ce825325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 59/71] fix: heap operations lost an element when copying one
 failed

---
 uheap.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/uheap.h b/uheap.h
index 67905ab..920f4bf 100644
--- a/uheap.h
+++ b/uheap.h
@@ -29,18 +29,13 @@ constexpr bool is_heap (RandomAccessIterator first, RandomAccessIterator last, C
 template <typename RandomAccessIterator, typename Compare>
 constexpr void trickle_down_heap (RandomAccessIterator first, size_t iHole, size_t heapSize, Compare comp)
 {
-    typedef typename iterator_traits<RandomAccessIterator>::value_type value_type;
-    const value_type v (first[iHole]);
-    for (size_t iChild = 0; (iChild = 2 * iHole + 1) < heapSize;) {
+    for (size_t iChild = 0; (iChild = 2 * iHole + 1) < heapSize; iHole = iChild) {
 	if (iChild + 1 < heapSize)
 	    iChild += comp (first[iChild], first[iChild + 1]);
-	if (comp (v, first[iChild])) {
-	    first[iHole] = first[iChild];
-	    iHole = iChild;
-	} else
+	if (!comp (first[iHole], first[iChild]))
 	    break;
+	iter_swap (first + iHole, first + iChild);	// copying could fail halfway and lose an element
     }
-    first[iHole] = v;
 }
 
 /// \brief make_heap turns the range [first, last) into a heap
@@ -67,16 +62,14 @@ constexpr void push_heap (RandomAccessIterator first, RandomAccessIterator last,
 {
     if (last <= first)
 	return;
-    typedef typename iterator_traits<RandomAccessIterator>::value_type value_type;
-    const value_type v (*--last);
+    --last;
     while (first < last) {
 	RandomAccessIterator iParent = first + (distance(first, last) - 1) / 2;
-	if (comp (v, *iParent))
+	if (comp (*last, *iParent))
 	    break;
-	*last = *iParent;
+	iter_swap (last, iParent);
 	last = iParent;
     }
-    *last = v;
 }
 
 /// Removes the largest element from the heap (*first) and places it at *(last-1)
-- 
2.43.0


From 98d1edc5e1277304951b48acbed9e9822b8ec2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 60/71] fix: a matrix could not be made from one of another
 type

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..32019f9 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T>(static_cast<const tuple<NX*NY,T2>&>(src)) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From 5926d0576eb215244fef95ec823a8b01da2141d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 61/71] fix: setting a range of bits left the bits that were on

---
 ubitset.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..f6b88cc 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,14 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    value_type& br (BitRef (first));
+			    const value_type mask (BitMask(value_type,distance(first,last)) << (first % s_WordBits));
+			    br = (br & ~mask) | (v << (first % s_WordBits));
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0


From 114d61d097c687143a6794e52659d9e4eb172ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:55 +0000
Subject: [PATCH 62/71] fix: products with a 4x4 float matrix used the wrong
 element (shufps immediate)

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From 8521b3ba78ff077b1cf47af20def3ec6a152c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 63/71] fix: SIMD operations with three operands did not
 compile

---
 simd.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/simd.h b/simd.h
index 74d97a1..c085cf7 100644
--- a/simd.h
+++ b/simd.h
@@ -46,15 +46,6 @@ inline void packop (const Ctr& op1, Ctr& op2, BinaryOperation op)
 	*i2 = op (*i2, *i1);
 }
 
-/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
-template <typename Ctr, typename BinaryOperation>
-inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
-{
-    assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    op (op2, result);
-}
-
 /// Copies \p op1 into \p result.
 template <typename Ctr>
 inline void passign (const Ctr& op1, Ctr& result)
@@ -65,6 +56,15 @@ inline void passign (const Ctr& op1, Ctr& result)
 	*d++ = *s;
 }
 
+/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
+template <typename Ctr, typename BinaryOperation>
+inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
+{
+    assert (op1.size() <= op2.size() && op1.size() <= result.size());
+    passign (op1, result);
+    packop (op2, result, op);
+}
+
 /// Copies \p result.size() elements from \p op1 to \p result.
 template <typename Ctr>
 inline void ipassign (typename Ctr::const_iterator op1, Ctr& result)
-- 
2.43.0


From 4500f6a1e01cba6a871cfcf81ec5ea36425063dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 64/71] fix: SIMD operations on one operand dropped their
 results

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index c085cf7..f5db1a3 100644
--- a/simd.h
+++ b/simd.h
@@ -32,7 +32,7 @@ template <typename Ctr, typename UnaryOperation>
 inline void packop (Ctr& op1, UnaryOperation op)
 {
     foreach (typename Ctr::iterator, i, op1)
-	op (*i);
+	*i = op (*i);
 }
 
 /// Applies \p op to each element in \p op1 and \p op2 and stores in \p op2.
-- 
2.43.0


From 35b1013de804dd4da513d7c2d24a68073d76ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:06 +0000
Subject: [PATCH 65/71] fix: SSE operations did not tell the compiler that they
 use xmm1

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index f5db1a3..629fac9 100644
--- a/simd.h
+++ b/simd.h
@@ -389,7 +389,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From f11460fe8bec62e4678a96ff981c019ee2855148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:16 +0000
Subject: [PATCH 66/71] fix: a system_error made with a string operation kept a
 pointer into the string

---
 ustdxept.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..e70f7ff 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -158,11 +158,11 @@ public:
 			system_error (error_code ec, const char* operation) noexcept
 			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
     inline              system_error (error_code ec, const string& operation) noexcept
-			    : system_error (ec, operation.c_str()) {}
+			    : system_error (ec, "") { try { _operation = operation; } catch (...) {} }
     inline              system_error (int ec, const error_category& ecat, const char* operation)
 			    : system_error (error_code(ec,ecat), operation) {}
     inline              system_error (int ec, const error_category& ecat, const string& operation)
-			    : system_error (ec, ecat, operation.c_str()) {}
+			    : system_error (error_code(ec,ecat), operation) {}
     inline auto		code (void) const	{ return error_code (_errno, system_category()); }
 #endif
 private:
-- 
2.43.0


From cfb6c498c7ffe8e0e5d0dd859510e9ac10e94012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:16 +0000
Subject: [PATCH 67/71] fix: pairs with 8-byte values took more room in a
 stream than stream_size told

---
 uspecial.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uspecial.h b/uspecial.h
index b59e320..4d2fb7e 100644
--- a/uspecial.h
+++ b/uspecial.h
@@ -60,6 +60,14 @@ void pair<T1,T2>::write (ostream& os) const
     os.align (stream_align_of(first));
 }
 
+/// A pair has to be aligned for both of its values.
+template <typename T1, typename T2>
+inline size_t stream_align_of (const pair<T1,T2>&)
+{
+    const size_t a1 = stream_align_of (NullValue<T1>()), a2 = stream_align_of (NullValue<T2>());
+    return max (size_t(4), max (a1, a2));
+}
+
 /// Returns the written size of the object.
 template <typename T1, typename T2>
 constexpr size_t pair<T1,T2>::stream_size (void) const
-- 
2.43.0


From b121024f094d7191d250569ecb878456037dba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:16 +0000
Subject: [PATCH 68/71] fix: chrono::hrtime_t from negative seconds with a
 fraction had negative nanoseconds

---
 uchrono.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 0f465f8..272c79f 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -181,8 +181,8 @@ struct hrtime_t : public timespec {
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
     inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den - (v%nano::den < 0)),time_t(v%nano::den + (v%nano::den < 0)*nano::den)}{}
-    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
-    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
+    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v)-(time_t((v-time_t(v))*nano::den) < 0),time_t((v-time_t(v))*nano::den) + (time_t((v-time_t(v))*nano::den) < 0)*nano::den}{}
+    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v)-(time_t((v-time_t(v))*nano::den) < 0),time_t((v-time_t(v))*nano::den) + (time_t((v-time_t(v))*nano::den) < 0)*nano::den}{}
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
-- 
2.43.0


From 2d8c28d5c68f9d17d93991d702fbeb7259c002d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:04 +0000
Subject: [PATCH 69/71] fix: chrono::hrtime_t added to itself was a second off
 when the fraction carried

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 272c79f..078ee1c 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -206,11 +206,11 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator++ (int)		{ hrtime_t r(*this); operator++(); return r; }
     inline constexpr hrtime_t	operator-- (int)		{ hrtime_t r(*this); operator--(); return r; }
     constexpr hrtime_t&			operator+= (const hrtime_t& v) {
+				    tv_sec += v.tv_sec;	// v may be *this
 				    if (nano::den <= (tv_nsec += v.tv_nsec)) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-				    tv_sec += v.tv_sec;
 				    return *this;
 				}
     constexpr hrtime_t&		operator-= (const hrtime_t& v) {
-- 
2.43.0


From 9ad07b4594d3c2991124b0e25cde4a81d7e9ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:04 +0000
Subject: [PATCH 70/71] fix: rotating long ranges overflowed the stack

---
 ualgobase.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index f5dab8a..b591f3d 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -229,7 +229,8 @@ void rotate_fast (void* first, void* middle, void* last) noexcept
     const size_t hmin (min (half1, half2));
     if (!hmin)
 	return;
-    void* buf = alloca (hmin);
+    const size_t maxOnStack = 32768;	// alloca can not fail, so larger ranges are exchanged in place
+    void* buf = hmin <= maxOnStack ? alloca (hmin) : nullptr;
     if (buf) {
 	if (half2 < half1) {
 	    copy_n_fast (middle, half2, buf);
-- 
2.43.0


From d06b3f9a41cac4a8a5f2d042f986a9be94bdf77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:04 +0000
Subject: [PATCH 71/71] fix: asking for an impossible size wrapped to a small
 one instead of throwing bad_alloc

---
 memblock.cc | 12 +++++++-----
 ustring.cc  |  2 ++
 uvector.h   | 15 +++++++++------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index 598149d..8e4374b 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -27,8 +27,7 @@ void memblock::unlink (void) noexcept
 /// resizes the block to \p newSize bytes, reallocating if necessary.
 void memblock::resize (size_type newSize, bool bExact)
 {
-    if (_capacity < newSize + minimumFreeCapacity())
-	reserve (newSize, bExact);
+    reserve (newSize, bExact);
     memlink::resize (newSize);
 }
 
@@ -79,14 +78,15 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
+    if (newSize > SIZE_MAX - minimumFreeCapacity())
+	throw bad_alloc (newSize);
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
     if (!oldBlock)	// All of the linked data has to fit.
 	newSize = max (newSize, size() + minimumFreeCapacity());
-    const size_t alignedSize (NextPow2 (newSize));
-    if (!bExact)
-	newSize = alignedSize;
+    if (!bExact && newSize <= UINT32_MAX/2)	// NextPow2 has only 32 bits
+	newSize = NextPow2 (newSize);
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
@@ -116,6 +116,8 @@ memblock::iterator memblock::insert (const_iterator start, size_type n)
 {
     const uoff_t ip = start - begin();
     assert (ip <= size());
+    if (n > SIZE_MAX - size())
+	throw bad_alloc (n);
     resize (size() + n, false);
     memlink::insert (iat(ip), n);
     return iat (ip);
diff --git a/ustring.cc b/ustring.cc
index 6508501..c4efed7 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -97,6 +97,8 @@ string& string::append (const_pointer s, size_type len)
 /// Appends to itself \p n characters of value \p c.
 string& string::append (size_type n, value_type c)
 {
+    if (n > SIZE_MAX - size())
+	throw bad_alloc (n);
     resize (size() + n);
     fill_n (end() - n, n, c);
     return *this;
diff --git a/uvector.h b/uvector.h
index 87db99c..322be07 100644
--- a/uvector.h
+++ b/uvector.h
@@ -120,6 +120,8 @@ public:
 #endif
 protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
+    /// Returns the number of bytes in \p n elements, which has to be a possible size.
+    static inline size_type	bytes_in (size_type n)		{ if (n > SIZE_MAX/2/sizeof(T)) throw bad_alloc (n); return n*sizeof(T); }
     inline bool			is_element (const T& v) const	{ return &v >= begin() && &v < end(); }
 private:
     /// Closes the hole if constructing the elements in it throws.
@@ -146,13 +148,13 @@ private:
 template <typename T>
 inline void vector<T>::reserve (size_type n, bool bExact)
 {
-    _data.reserve (n*sizeof(T), bExact);
+    _data.reserve (bytes_in(n), bExact);
 }
 
 template <typename T>
 inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 {
-    size_type nsz = _data.size() + n*sizeof(T);
+    size_type nsz = _data.size() + bytes_in(n);
     _data.reserve (nsz);
     iterator hp = end();
     _data.memlink::resize (nsz);
@@ -163,7 +165,7 @@ inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
 template <typename T>
 void vector<T>::resize (size_type n)
 {
-    size_type nb = n*sizeof(T);
+    size_type nb = bytes_in(n);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
@@ -181,7 +183,7 @@ void vector<T>::resize (size_type n, const_reference v)
 	const T vc (v);
 	return resize (n, vc);
     }
-    size_type nb = n*sizeof(T);
+    size_type nb = bytes_in(n);
     _data.reserve (nb);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
@@ -291,8 +293,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_hole (const_iterator ip, size_type n)
 {
     const uoff_t ipmi = distance (_data.begin(), memblock::const_iterator(ip));
-    reserve (size() + n);
-    return iterator (_data.insert (_data.iat(ipmi), n * sizeof(T)));
+    const size_type nb = bytes_in(n);
+    _data.reserve (_data.size() + nb);
+    return iterator (_data.insert (_data.iat(ipmi), nb));
 }
 
 /// Inserts \p n uninitialized elements at \p ip.
-- 
2.43.0

