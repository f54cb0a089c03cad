From 525493ee2b6c8be6e26fdee98f8957dd6e199f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 01/25] fix: compare times at different frame rates by the
 instant they represent.

---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From d7ae4c8554f5b45494c42b08ff71666ae4d3346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 02/25] fix: round rather than truncate when adding times.

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..560aa5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -181,7 +181,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From e925b7218ef0cc8d7074127b8b3143752eedd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 03/25] fix: carry into seconds when scaling a time rounds up
 to a whole second.

---
 src/sub_time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 560aa5b..063b3d5 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -194,4 +194,9 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+	if (_frames >= _rate->integer_fraction()) {
+		/* Rounded up to a whole second */
+		_frames -= _rate->integer_fraction();
+		++_seconds;
+	}
 }
-- 
2.43.0


From 6e8429ab91f17f30c8484fb7004453da51816e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 04/25] fix: do not read past the colour stack on an unmatched
 </font>.

---
 src/subrip_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..418c6e9 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -301,10 +301,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
+			if (colours.size() > 1) {
 				colours.pop_back();
-				p.colour = colours.back();
 			}
+			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
-- 
2.43.0


From 81a7399dc70d1b4fe0f8a29e113db6fdb3202bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 05/25] fix: ignore unassigned ISO 6937 codes rather than
 crashing on them or altering the tables.

---
 src/iso6937.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..0566829 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -50,10 +50,19 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			auto table = iso6937::diacriticals.find(static_cast<char>(diacritical.get()));
+			if (table != iso6937::diacriticals.end()) {
+				auto entry = table->second->find(static_cast<char>(u));
+				if (entry != table->second->end()) {
+					o += entry->second;
+				}
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			auto entry = iso6937::main.find(static_cast<char>(u));
+			if (entry != iso6937::main.end()) {
+				o += entry->second;
+			}
 		}
 
 		++i;
-- 
2.43.0


From de30ed56c32f0a2985db3c496ea555870119c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 06/25] fix: map the U8 character code table to UTF-8.

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 0f97cf27d159d3bc86c75cda343716f62f9fc647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 07/25] fix: do not drop the last digit of a text STL start
 time that directly precedes the comma.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..fad64e6 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -84,7 +84,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From c1e9cfd96829e0be8f9ba7bcb4741921fe28ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 08/25] fix: count every line break of a text STL subtitle.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index fad64e6..a401757 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -99,6 +99,7 @@ STLTextReader::STLTextReader (istream& in)
 
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
+			_subtitle.vertical_position.line = 0;
 
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
@@ -167,6 +168,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From 953b7d16f24b1453c8b3bb9f38af060fe299f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 09/25] fix: read the last line of a text STL file when it has
 no newline.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index a401757..f9df1be 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -47,7 +47,7 @@ STLTextReader::STLTextReader (istream& in)
 	while (in.good ()) {
 		string line;
 		getline (in, line);
-		if (!in.good ()) {
+		if (in.fail ()) {
 			return;
 		}
 
-- 
2.43.0


From 7129fbc4620cc1c17286c0a9714307bdafde81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 10/25] fix: do not break up lines longer than 255 characters
 when reading from a file.

---
 src/util.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..65fdea7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,20 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
+	string line;
 	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	while (fgets (buffer, sizeof (buffer), f)) {
+		line += buffer;
+		if (!line.empty() && line[line.length() - 1] == '\n') {
+			return line;
+		}
+	}
+
+	if (line.empty()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From a11a77a400e6764b9cdc9361e34870726c3efd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 11/25] fix: do not use an unset number of lines in
 VerticalPosition::fraction_from_screen_top.

---
 src/vertical_position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..62bed2d 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,7 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && !(line && lines))) {
 		return 0;
 	}
 
-- 
2.43.0


From e429b87076c900adf2d2f2806e6b1cf12f448d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 12/25] fix: do not overflow the maximum characters field of a
 binary STL header.

---
 src/stl_binary_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..f0c87c9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -366,7 +366,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min(longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 051e6cd87b1527f34ea3e3a239a5eb3450a8bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 13/25] fix: round row positions in binary STL files so that
 lines keep the row they came from.

---
 src/stl_binary_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index f0c87c9..60e44e8 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -129,13 +129,13 @@ vertical_position (sub::Line const & line)
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From 42d0f2e503fd8660d11a653ca47563710c5e155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 14/25] fix: write lines positioned from the top of their
 subtitle to binary STL on separate rows.

---
 src/stl_binary_writer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 60e44e8..cf6ad91 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -114,6 +114,7 @@ vertical_position (sub::Line const & line)
 	if (line.vertical_position.proportional) {
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
+		case TOP_OF_SUBTITLE:
 			vp = rint (line.vertical_position.proportional.get() * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
@@ -126,9 +127,10 @@ vertical_position (sub::Line const & line)
 			break;
 		}
 	} else if (line.vertical_position.line) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get_value_or (ROWS);
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
+		case TOP_OF_SUBTITLE:
 			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-- 
2.43.0


From b4367c284aa73ed1a2c4366bbb41cdf61b8ee714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 15/25] fix: carry into seconds when a binary STL timecode
 rounds up to a whole second.

---
 src/stl_binary_writer.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index cf6ad91..4d16f9c 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -147,6 +147,23 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
+/** Write a 4-byte timecode */
+static void
+put_timecode (char* p, sub::Time t, sub::Rational rate)
+{
+	int const frames = t.frames_at (rate);
+	if (frames >= rint (rate.fraction())) {
+		/* Rounded up to a whole second */
+		put_timecode (p, sub::Time::from_hmsf(t.hours(), t.minutes(), t.seconds() + 1, 0, rate), rate);
+		return;
+	}
+
+	put_int_as_int (p + 0, t.hours(), 1);
+	put_int_as_int (p + 1, t.minutes(), 1);
+	put_int_as_int (p + 2, t.seconds(), 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 vector<char*>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
@@ -232,15 +249,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, sub::Rational(frames_per_second * 1000, 1000));
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, sub::Rational(frames_per_second * 1000, 1000));
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From 3c1b69fdbb8516527cb63a8dba9dfae6b5fec694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 16/25] fix: do not take SSA text scale and spacing tags for
 font sizes.

---
 src/ssa_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..ba0c0d2 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,7 +283,7 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
+	} else if (boost::starts_with(tag, "\\fs") && !boost::starts_with(tag, "\\fsc") && !boost::starts_with(tag, "\\fsp")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
 	} else if (boost::starts_with(tag, "\\c")) {
-- 
2.43.0


From 4c3388e874ec21c4d5162e5af6067338c959fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 17/25] fix: do not take SSA clip tags for colours, and do not
 cut off the end of a colour.

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ba0c0d2..dc4d77f 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -286,10 +286,10 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 	} else if (boost::starts_with(tag, "\\fs") && !boost::starts_with(tag, "\\fsc") && !boost::starts_with(tag, "\\fsp")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (boost::starts_with(tag, "\\c") && !boost::starts_with(tag, "\\clip")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
-			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
+			sub.colour = h_colour(tag.substr(2));
 		} else if (tag.length() == 2) {
 			sub.colour = context.primary_colour;
 		} else {
-- 
2.43.0


From d8eb4a6d00aa373e69e310b3d1e22c1d2a0088c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 18/25] fix: use white, not an out-of-range colour, for SSA
 styles with no primary colour.

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index dc4d77f..73e9976 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From 1750ad0fcfd029538ce0b04ce2d14b4f89d18dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 19/25] fix: count 24 frames per second in 23.976fps binary STL
 files.

---
 src/stl_binary_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..d6a8c49 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,6 +25,7 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
+#include <cmath>
 #include <iostream>
 
 using std::map;
@@ -146,7 +147,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	reader->read (1024, "GSI");
 
 	code_page_number = atoi (reader->get_string(0, 3).c_str());
-	frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	frame_rate = rint (stl_dfc_to_frame_rate (reader->get_string(3, 8)));
 	display_standard = _tables.display_standard_file_to_enum (reader->get_string(11, 1));
 	language_group = _tables.language_group_file_to_enum (reader->get_string(12, 2));
 	language = _tables.language_file_to_enum (reader->get_string(14, 2));
-- 
2.43.0


From ee29a5c7d55267bc263579f545aefe261ef4b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 20/25] fix: format unsigned long long values as unsigned.

---
 src/locale_convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 83970f1..c1d8588 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -59,9 +59,9 @@ sub::locale_convert (unsigned long long x, int, bool)
 {
 	char buffer[64];
 #ifdef LIBSUB_WINDOWS
-	__mingw_snprintf (buffer, sizeof(buffer), "%lld", x);
+	__mingw_snprintf (buffer, sizeof(buffer), "%llu", x);
 #else
-	snprintf (buffer, sizeof(buffer), "%lld", x);
+	snprintf (buffer, sizeof(buffer), "%llu", x);
 #endif
 	return buffer;
 }
-- 
2.43.0


From 3dc050fba3fe739c33148eaff575a303b53ec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 21/25] fix: do not let a combining character change the
 following one when encoding ISO 6937.

---
 src/iso6937.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 0566829..a9b12c4 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -95,6 +95,11 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
+		if (c && static_cast<unsigned char>(c.get()) >= 0xc1 && static_cast<unsigned char>(c.get()) <= 0xcf) {
+			/* A combining character on its own would put its diacritical on whatever comes next */
+			continue;
+		}
+
 		if (c) {
 			o += c.get ();
 		} else {
-- 
2.43.0


From aacbc623dfe70788ae6a2fa2b596be4e4ba22fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 22/25] fix: do not overflow when working out SSA horizontal
 positions.

---
 src/ssa_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 73e9976..b8a4359 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -200,7 +200,7 @@ SSAReader::Context::update_horizontal_position(RawSubtitle& sub) const
 		sub.horizontal_position.proportional = static_cast<float>(left_margin) / play_res_x;
 		break;
 	case HORIZONTAL_CENTRE_OF_SCREEN:
-		sub.horizontal_position.proportional = static_cast<float>(left_margin - right_margin) / (2 * play_res_x);
+		sub.horizontal_position.proportional = (static_cast<float>(left_margin) - right_margin) / (2.0f * play_res_x);
 		break;
 	case RIGHT_OF_SCREEN:
 		sub.horizontal_position.proportional = static_cast<float>(right_margin) / play_res_x;
-- 
2.43.0


From 474aa1faa7a896caf73c4c7adc8f86cfabf7cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 23/25] fix: count only real line breaks in SSA lines, not
 those inside tags or after an escaped backslash.

---
 src/ssa_reader.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index b8a4359..2334d33 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -336,15 +336,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
+	/* Number of line breaks */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -383,6 +376,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					subs.push_back (current);
 					current.text = "";
 				}
+				++line_breaks;
 				/* Move down one line (1.2 times the font size) */
 				if (current.vertical_position.reference.get() == BOTTOM_OF_SCREEN) {
 					current.vertical_position.proportional = current.vertical_position.proportional.get() - line_size;
-- 
2.43.0


From 7a1492e6c112ec4596da7c089b08a3c72f78bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:27 +0000
Subject: [PATCH 24/25] fix: trim SSA lines after removing a byte order mark.

---
 src/ssa_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 2334d33..50fe9d7 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -439,8 +439,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 			break;
 		}
 
-		trim (*line);
 		remove_unicode_bom (line);
+		trim (*line);
 
 		if (starts_with (*line, ";") || line->empty ()) {
 			continue;
-- 
2.43.0


From ef355bf14afb9020df4e9b7bd650ce87a9644903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 25/25] fix: read .stl text files shorter than the header that
 is looked for.

---
 src/reader_factory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..28c72ed 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -42,6 +42,7 @@ sub::reader_factory (boost::filesystem::path file_name)
 		ifstream f (file_name.string().c_str ());
 		char buffer[11];
 		f.read (buffer, 11);
+		f.clear ();
 		f.seekg (0);
 		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
-- 
2.43.0

