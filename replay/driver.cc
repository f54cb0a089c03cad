/* Replay driver: runs the real libsub code (linked from /repo/src, with ASan/UBSan)
   on one case per input line and prints one JSON line per case.
   Tokens are separated by single spaces; strings are hex ("." = empty);
   optionals are "-" or "+ value"; lists are "count items...". */
#include "ssa_reader.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "stl_binary_tables.h"
#include "reader_factory.h"
#include "collect.h"
#include "util.h"
#include "stl_util.h"
#include "iso6937.h"
#include "exceptions.h"
#include "raw_convert.h"
#include "locale_convert.h"
#include "sub_time.h"
#include "vertical_reference.h"
#include "effect.h"
#include <boost/core/demangle.hpp>
#include <cstdio>
#include <cstdlib>
#include <clocale>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <list>
#include <deque>
#include <sstream>
using namespace sub;
using std::string; using std::vector; using boost::optional;

/* ---------------- input */
static std::istringstream in;
static string tok () { string s; in >> s; if (s.empty()) { std::cerr << "protocol\n"; exit(3); } return s; }
static long long I () { return strtoll (tok().c_str(), 0, 10); }
static double D () { static locale_t c = newlocale (LC_ALL_MASK, "C", 0); return strtod_l (tok().c_str(), 0, c); }
static string S () { string h = tok(), o; if (h == ".") return o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += char (strtol (h.substr(i, 2).c_str(), 0, 16)); return o; }
static bool opt () { return tok() == "+"; }
static Rational R () { int n = I(); int d = I(); return Rational (n, d); }
static Time T () { int s = I(); int f = I(); optional<Rational> r; if (opt()) r = R(); return Time::from_hmsf (0, 0, s, f, r); }
static Colour C () { float r = D(), g = D(), b = D(); return Colour (r, g, b); }
static FontSize FS () { FontSize f; if (opt()) f.set_proportional (D()); if (opt()) f.set_points (I()); return f; }
static VerticalPosition VP () { VerticalPosition v; if (opt()) v.proportional = float (D()); if (opt()) v.line = int (I()); if (opt()) v.lines = int (I()); if (opt()) v.reference = VerticalReference (I()); return v; }
static HorizontalPosition HP () { HorizontalPosition h; h.reference = HorizontalReference (I()); h.proportional = D(); return h; }
template <class B> void block (B& b) {
	b.text = S(); if (opt()) b.font = S(); b.font_size = FS(); if (opt()) b.effect = Effect (I()); if (opt()) b.effect_colour = C();
	b.colour = C(); b.bold = I(); b.italic = I(); b.underline = I();
}
static RawSubtitle RS () {
	RawSubtitle r; block (r); r.horizontal_position = HP(); r.vertical_position = VP(); r.from = T(); r.to = T();
	if (opt()) r.fade_up = T(); if (opt()) r.fade_down = T(); return r;
}
static Subtitle SUB () {
	Subtitle s; s.from = T(); s.to = T(); if (opt()) s.fade_up = T(); if (opt()) s.fade_down = T();
	int n = I(); for (int i = 0; i < n; ++i) { Line l; l.horizontal_position = HP(); l.vertical_position = VP(); int m = I(); for (int j = 0; j < m; ++j) { Block b; block (b); l.blocks.push_back (b); } s.lines.push_back (l); }
	return s;
}
static SSAReader::Context CTX () { int x = I(), y = I(); Colour c = C(); int l = I(), r = I(); return SSAReader::Context (x, y, c, l, r); }

/* ---------------- output */
static std::ostringstream out;
static string hex (string const& s) { static char const d[] = "0123456789abcdef"; string o = "\""; for (unsigned char c: s) { o += d[c >> 4]; o += d[c & 15]; } return o + "\""; }
static void j (string const& s) { out << hex (s); }
static void j (int v) { out << v; }
static void j (bool v) { out << (v ? "true" : "false"); }
static void j (double v) { char b[64]; snprintf (b, sizeof b, "%.17g", v); for (char* c = b; *c; ++c) if (*c == ',') *c = '.'; if (b[0] == 'i' || b[0] == 'n' || b[1] == 'i' || b[1] == 'n') out << '"' << b << '"'; else out << b; }
static void j (float v) { j (double (v)); }
static void j (Colour const& v);
static void j (FontSize const& v);
static void j (Time const& v);
static void j (HorizontalPosition const& v);
static void j (VerticalPosition const& v);
static void j (RawSubtitle const& v);
static void j (Block const& v);
static void j (Line const& v);
static void j (Subtitle const& v);
static void j (Effect v);
static void j (VerticalReference v);
static void j (HorizontalReference v);
static void j (Language v);
template <class X> void j (optional<X> const& o) { if (o) j (*o); else out << "null"; }
static void j (Effect v) { out << int (v); }
static void j (VerticalReference v) { out << int (v); }
static void j (HorizontalReference v) { out << int (v); }
static void j (Language v) { out << int (v); }
static void j (Colour const& c) { out << '['; j (c.r); out << ','; j (c.g); out << ','; j (c.b); out << ']'; }
static void j (FontSize const& f) { out << '['; j (f.proportional()); out << ','; j (f.points()); out << ']'; }
#ifdef ROB
template <class Tag, typename Tag::type M> struct Rob { friend typename Tag::type get (Tag) { return M; } };
struct Ts { typedef int Time::*type; friend type get (Ts); }; template struct Rob<Ts, &Time::_seconds>;
struct Tf { typedef int Time::*type; friend type get (Tf); }; template struct Rob<Tf, &Time::_frames>;
struct Tr { typedef optional<Rational> Time::*type; friend type get (Tr); }; template struct Rob<Tr, &Time::_rate>;
#endif
static void j (Time const& t) {
	int s, f; optional<Rational> r;
#ifdef ROB
	s = t.*get (Ts()); f = t.*get (Tf()); r = t.*get (Tr());
#else
	s = t.hours() * 3600 + t.minutes() * 60 + t.seconds();
	std::ostringstream o; o << t; string x = o.str();
	size_t p = x.rfind (':'); f = atoi (x.c_str() + p + 1); size_t a = x.find ('@');
	if (a != string::npos) { int n, d; sscanf (x.c_str() + a + 1, "%d/%d", &n, &d); r = Rational (n, d); }
#endif
	out << '[' << s << ',' << f << ','; if (r) out << '[' << r->numerator << ',' << r->denominator << ']'; else out << "null"; out << ']';
}
static void j (HorizontalPosition const& h) { out << '[' << int (h.reference) << ','; j (h.proportional); out << ']'; }
static void j (VerticalPosition const& v) { out << '['; j (v.proportional); out << ','; j (v.line); out << ','; j (v.lines); out << ','; j (v.reference); out << ']'; }
template <class B> void jb (B const& b) {
	j (b.text); out << ','; j (b.font); out << ','; j (b.font_size); out << ','; j (b.effect); out << ','; j (b.effect_colour); out << ',';
	j (b.colour); out << ','; j (b.bold); out << ','; j (b.italic); out << ','; j (b.underline);
}
static void j (RawSubtitle const& r) {
	out << '['; jb (r); out << ','; j (r.horizontal_position); out << ','; j (r.vertical_position); out << ','; j (r.from); out << ','; j (r.to); out << ',';
	j (r.fade_up); out << ','; j (r.fade_down); out << ']';
}
template <class V> void jl (V const& v) { out << '['; bool f = true; for (auto const& i: v) { if (!f) out << ','; f = false; j (i); } out << ']'; }
static void j (Block const& b) { out << '['; jb (b); out << ']'; }
static void j (Line const& l) { out << '['; j (l.horizontal_position); out << ','; j (l.vertical_position); out << ','; jl (l.blocks); out << ']'; }
static void j (Subtitle const& s) { out << '['; j (s.from); out << ','; j (s.to); out << ','; j (s.fade_up); out << ','; j (s.fade_down); out << ','; jl (s.lines); out << ']'; }

struct File {
	FILE* f;
	File (string const& s) { f = tmpfile(); if (!f) exit (4); fwrite (s.data(), 1, s.size(), f); rewind (f); }
	~File () { fclose (f); }
};
static string scratch;
static void ctx (std::list<string> const& c) { jl (c); }

static void stlbin (STLBinaryReader const& r) {
	out << "{\"subs\":"; jl (r.subtitles());
	out << ",\"meta\":{"; bool f = true; for (auto const& i: r.metadata()) { if (!f) out << ','; f = false; j (i.first); out << ':'; j (i.second); }
	out << "},\"fields\":[";
	out << r.code_page_number << ',' << r.frame_rate << ',' << int (r.display_standard) << ',' << int (r.language_group) << ',' << int (r.language) << ','
	    << r.tti_blocks << ',' << r.number_of_subtitles << ',' << r.subtitle_groups << ',' << r.maximum_characters << ',' << r.maximum_rows << ',' << int (r.timecode_status)
	    << ',' << r.disks << ',' << r.disk_sequence_number << "],\"strs\":";
	vector<string> s{r.original_programme_title, r.original_episode_title, r.translated_programme_title, r.translated_episode_title, r.translator_name, r.translator_contact_details,
		r.subtitle_list_reference_code, r.creation_date, r.revision_date, r.revision_number, r.start_of_programme, r.first_in_cue, r.country_of_origin, r.publisher, r.editor_name, r.editor_contact_details};
	jl (s); out << '}';
}

/* a locale with a decimal comma and a thousands point */
struct CommaLocale { CommaLocale () { setlocale (LC_NUMERIC, "de_DE.UTF-8"); } ~CommaLocale () { setlocale (LC_NUMERIC, "C"); } };

static void run (string const& op)
{
	if (op == "comma") { CommaLocale l; run (tok()); }
	else if (op == "srt") { string m = tok(), s = S(); if (m == "s") { SubripReader r (s); jl (r.subtitles()); } else { File f (s); SubripReader r (f.f); jl (r.subtitles()); } }
	else if (op == "vtt") { string m = tok(), s = S(); if (m == "s") { WebVTTReader r (s); jl (r.subtitles()); } else { File f (s); WebVTTReader r (f.f); jl (r.subtitles()); } }
	else if (op == "ssa") { string m = tok(), s = S(); if (m == "s") { SSAReader r (s); jl (r.subtitles()); } else { File f (s); SSAReader r (f.f); jl (r.subtitles()); } }
	else if (op == "readmany") { string k = tok(); int n = I(); out << '['; for (int i = 0; i < n; ++i) { string m = tok(), s = S(); if (i) out << ','; auto at = out.str();
		try { std::shared_ptr<Reader> r; std::unique_ptr<File> f; if (m != "s") f.reset (new File (s));
			if (k == "srt") r.reset (m == "s" ? new SubripReader (s) : new SubripReader (f->f)); else if (k == "vtt") r.reset (m == "s" ? new WebVTTReader (s) : new WebVTTReader (f->f)); else r.reset (m == "s" ? new SSAReader (s) : new SSAReader (f->f));
			jl (r->subtitles()); }
		catch (std::exception& e) { out.str (""); out << at; j (string (boost::core::demangle (typeid (e).name()))); } } out << ']'; }
	else if (op == "stltext") { std::istringstream s (S()); STLTextReader r (s); jl (r.subtitles()); }
	else if (op == "stlbin") { string m = tok(), s = S(); if (m == "s") { std::istringstream i (s); STLBinaryReader r (i); stlbin (r); } else { File f (s); STLBinaryReader r (f.f); stlbin (r); } }
	else if (op == "ssaline") { auto b = RS(); auto l = S(); auto c = CTX(); jl (SSAReader::parse_line (b, l, c)); }
	else if (op == "ssatag") { auto b = RS(); auto l = S(); auto c = CTX(); SSAReader::parse_tag (b, l, c); j (b); }
	else if (op == "ssahpos") { auto b = RS(); auto c = CTX(); c.update_horizontal_position (b); j (b); }
	else if (op == "srttime") { auto t = S(); auto m = S(); string e = "unset"; auto r = SubripReader::convert_time (t, m, &e); auto r2 = SubripReader::convert_time (t, m); out << '['; j (r); out << ','; j (e); out << ','; j (r2); out << ']'; }
	else if (op == "tcmp") { auto a = T(), b = T(); out << '['; j (a < b); out << ','; j (a > b); out << ','; j (a == b); out << ','; j (a != b); out << ']'; }
	else if (op == "tacc") { auto a = T(); out << '[' << a.hours() << ',' << a.minutes() << ',' << a.seconds() << ']'; }
	else if (op == "tprint") { auto a = T(); std::ostringstream o; o << a; j (o.str()); }
	else if (op == "tms") { auto a = T(); out << '[' << a.milliseconds() << ','; j (a.all_as_seconds()); out << ']'; }
	else if (op == "tframes") { auto a = T(); auto r = R(); out << a.frames_at (r); }
	else if (op == "tadd") { auto a = T(), b = T(); a.add (b); j (a); }
	else if (op == "tscale") { auto a = T(); float f = D(); a.scale (f); j (a); }
	else if (op == "tfromf") { int f = I(); auto r = R(); j (Time::from_frames (f, r)); }
	else if (op == "tfromhms") { int h = I(), m = I(), s = I(), ms = I(); j (Time::from_hms (h, m, s, ms)); }
	else if (op == "tfromhmsf") { int h = I(), m = I(), s = I(), f = I(); optional<Rational> r; if (opt()) r = R(); if (r) j (Time::from_hmsf (h, m, s, f, r)); else j (Time::from_hmsf (h, m, s, f)); }
	else if (op == "rat") { auto a = R(), b = R(); out << '['; j (a == b); out << ','; j (a.fraction()); out << ','; j (a.integer()); out << ',' << a.integer_fraction() << ','; auto m = sub::max (a, b); out << '[' << m.numerator << ',' << m.denominator << "]]"; }
	else if (op == "collect") { int n = I(); vector<RawSubtitle> v; for (int i = 0; i < n; ++i) v.push_back (RS()); 
		auto a = collect<vector<Subtitle>> (v); out << '['; jl (a); out << ','; jl (collect<std::list<Subtitle>> (v)); out << ']'; }
	else if (op == "dump") { string k = tok(), s = S(); std::ostringstream o; std::shared_ptr<Reader> r;
		if (k == "srt") r.reset (new SubripReader (s)); else if (k == "ssa") r.reset (new SSAReader (s)); else if (k == "vtt") r.reset (new WebVTTReader (s));
		else { std::istringstream i (s); r.reset (k == "stlbin" ? (Reader *) new STLBinaryReader (i) : (Reader *) new STLTextReader (i)); }
		dump (r, o); j (o.str()); }
	else if (op == "dumpraw") { struct F: public Reader { std::map<string,string> m; std::map<string,string> metadata () const override { return m; } void add (RawSubtitle r) { _subs.push_back (r); } };
		auto f = std::make_shared<F>(); int k = I(); for (int i = 0; i < k; ++i) { auto a = S(); auto b = S(); f->m[a] = b; } int n = I(); for (int i = 0; i < n; ++i) f->add (RS()); std::ostringstream o; dump (f, o); j (o.str()); }
	else if (op == "stlwrite") {
		int n = I(); vector<Subtitle> v; for (int i = 0; i < n; ++i) v.push_back (SUB());
		float fps = D(); Language l = Language (I()); string s[8]; for (int i = 0; i < 8; ++i) s[i] = S(); int rev = I(); string t[4]; for (int i = 0; i < 4; ++i) t[i] = S();
		string f = scratch + "/w.stl"; ::unlink (f.c_str());
		write_stl_binary (v, fps, l, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], rev, t[0], t[1], t[2], t[3], f);
		std::ifstream i (f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); out << '['; j (o.str());
		out << ','; { std::istringstream q (o.str()); STLBinaryReader r (q); stlbin (r); } out << ']'; ::unlink (f.c_str()); }
	else if (op == "isodec") { auto w = iso6937_to_utf16 (S()); out << '['; for (size_t i = 0; i < w.size(); ++i) out << (i ? "," : "") << int (w[i]); out << ']'; }
	else if (op == "isoenc") { int n = I(); std::wstring w; for (int i = 0; i < n; ++i) w += wchar_t (I()); j (utf16_to_iso6937 (w)); }
	else if (op == "isoseq") { int n = I(); out << '['; for (int k = 0; k < n; ++k) { if (k) out << ','; string o = tok();
		if (o == "d") { auto w = iso6937_to_utf16 (S()); out << '['; for (size_t i = 0; i < w.size(); ++i) out << (i ? "," : "") << int (w[i]); out << ']'; }
		else { int m = I(); std::wstring w; for (int i = 0; i < m; ++i) w += wchar_t (I()); j (utf16_to_iso6937 (w)); } } out << ']'; }
	else if (op == "tab") { STLBinaryTables t; string f = tok();
		if (f == "ds2e") out << int (t.display_standard_file_to_enum (S())); else if (f == "lg2e") out << int (t.language_group_file_to_enum (S()));
		else if (f == "l2e") out << int (t.language_file_to_enum (S())); else if (f == "ts2e") out << int (t.timecode_status_file_to_enum (S()));
		else if (f == "cs2e") out << int (t.cumulative_status_file_to_enum (I())); else if (f == "j2e") out << int (t.justification_file_to_enum (I()));
		else if (f == "c2e") out << int (t.comment_file_to_enum (I())); else if (f == "e2l") j (t.language_enum_to_file (Language (I())));
		else if (f == "e2cs") out << t.cumulative_status_enum_to_file (CumulativeStatus (I())); else if (f == "e2j") out << t.justification_enum_to_file (Justification (I()));
		else if (f == "e2c") out << t.comment_enum_to_file (Comment (I())); else if (f == "dds") j (t.display_standard_enum_to_description (DisplayStandard (I())));
		else if (f == "dlg") j (t.language_group_enum_to_description (LanguageGroup (I()))); else if (f == "dl") j (t.language_enum_to_description (Language (I())));
		else if (f == "dts") j (t.timecode_status_enum_to_description (TimecodeStatus (I()))); else if (f == "dcs") j (t.cumulative_status_enum_to_description (CumulativeStatus (I())));
		else if (f == "dj") j (t.justification_enum_to_description (Justification (I()))); else if (f == "dc") j (t.comment_enum_to_description (Comment (I())));
		else if (f == "d2l") j (t.language_description_to_enum (S())); }
	else if (op == "todfc") j (stl_frame_rate_to_dfc (D()));
	else if (op == "fromdfc") j (stl_dfc_to_frame_rate (S()));
	else if (op == "vfrac") j (VP().fraction_from_screen_top ());
	else if (op == "vcmp") { auto a = VP(), b = VP(); out << '['; j (a == b); out << ','; j (a < b); out << ']'; }
	else if (op == "veq") { auto a = VP(), b = VP(); j (a == b); }
	else if (op == "heq") { auto a = HP(), b = HP(); j (a == b); }
	else if (op == "fs") { auto f = FS(); int h = I(); out << '['; j (f.specified()); out << ','; j (f.proportional (h)); out << ','; j (f.points (h)); out << ']'; }
	else if (op == "fsspec") { auto f = FS(); j (f.specified()); }
	else if (op == "fseq") { auto a = FS(), b = FS(); j (a == b); }
	else if (op == "fsmk") { int p = I(); float q = D(); out << '['; j (FontSize::from_points (p)); out << ','; j (FontSize::from_proportional (q)); out << ']'; }
	else if (op == "rgb") j (Colour::from_rgb_hex (S()));
	else if (op == "rgba") j (Colour::from_rgba_hex (S()));
	else if (op == "coleq") { auto a = C(), b = C(); j (a == b); }
	else if (op == "effect") j (string_to_effect (S()));
	else if (op == "vref") j (string_to_vertical_reference (S()));
	else if (op == "ews") j (empty_or_white_space (S()));
	else if (op == "bom") { optional<string> s = S(); remove_unicode_bom (s); j (s); }
	else if (op == "lines") { string s = S(); string a = s; out << "[["; bool f = true; while (auto l = get_line_string (&a)) { if (!f) out << ','; f = false; j (*l); } out << "],["; f = true; File g (s); while (auto l = get_line_file (g.f)) { if (!f) out << ','; f = false; j (*l); } out << "]]"; }
	else if (op == "rawconv") { string s = S(); out << '['; j (raw_convert<int> (s)); out << ','; j (raw_convert<float> (s)); out << ']'; }
	else if (op == "locint") { int v = I(); out << '['; j (locale_convert<string> (v)); out << ','; j (locale_convert<int> (locale_convert<string> (v))); out << ']'; }
	else if (op == "locul") { unsigned long v = strtoull (tok().c_str(), 0, 10); out << '['; j (raw_convert<string> (v)); out << ','; j (locale_convert<string> (v)); out << ','; j (locale_convert<string> ((unsigned long long) v)); out << ','; j (locale_convert<string> ((long) v)); out << ']'; }
	else if (op == "blockeq") { Subtitle a = SUB(), b = SUB(); j (a == b); }
	else if (op == "factory") { string n = S(), c = S(); string f = scratch + "/" + n; { std::ofstream o (f, std::ios::binary); o << c; } 
		std::shared_ptr<Reader> r; try { r = reader_factory (f); } catch (...) { ::unlink (f.c_str()); throw; }
		::unlink (f.c_str()); out << '['; if (!r) out << "null,null"; else { auto& rr = *r; j (string (boost::core::demangle (typeid (rr).name()))); out << ','; jl (r->subtitles()); } out << ']'; }
	else { std::cerr << "unknown op " << op << "\n"; exit (3); }
}

int main (int argc, char* argv[])
{
	scratch = argv[1];
	std::ios::sync_with_stdio (true);
	FILE* res = fdopen (dup (1), "w");
	freopen ("/dev/null", "w", stdout);
	string line;
	while (std::getline (std::cin, line)) {
		in.clear (); in.str (line); out.str ("");
		string op = tok ();
		try { run (op); fprintf (res, "{\"ok\":%s}\n", out.str().c_str()); }
		catch (SubripError& e) { out.str (""); out << "{\"throw\":\"sub::SubripError\",\"what\":"; j (string (e.what())); out << ",\"line\":" << e.line_number() << ",\"ctx\":"; ctx (e.context()); out << "}"; fprintf (res, "%s\n", out.str().c_str()); }
		catch (WebVTTHeaderError& e) { out.str (""); out << "{\"throw\":\"sub::WebVTTHeaderError\",\"what\":"; j (string (e.what())); out << "}"; fprintf (res, "%s\n", out.str().c_str()); }
		catch (WebVTTError& e) { out.str (""); out << "{\"throw\":\"sub::WebVTTError\",\"what\":"; j (string (e.what())); out << ",\"ctx\":"; ctx (e.context()); out << "}"; fprintf (res, "%s\n", out.str().c_str()); }
		catch (std::exception& e) { string n = boost::core::demangle (typeid (e).name()); size_t p = n.find ("boost::wrapexcept<"); if (p == 0) n = n.substr (18, n.size() - 19);
			out.str (""); out << "{\"throw\":\"" << n << "\",\"what\":"; j (string (e.what())); out << "}"; fprintf (res, "%s\n", out.str().c_str()); }
		fflush (res);
	}
	fclose (res);
	return 0;
}
