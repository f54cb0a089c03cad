#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (edit here, not there)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[], hook_needed=None)))
p('C01', 'Time comparisons agree with the instants represented',
  'For two times whose frames are less than one second at their rate, <, >, == and != give the order of the real instants (whole seconds plus frames divided by rate), also across different and fractional frame rates. Two times without a rate compare by seconds then frames; when exactly one has a rate and whole seconds do not decide, an unknown-frame-rate error is thrown rather than an answer invented.',
  ['inputs'], 'all seconds (32 bit), all frame counts below one second, all rates with numerator up to 10^6 and denominator up to 2000',
  'The tests compare a handful of times at three or four rates; ordering is a statement about all pairs.',
  ['src/sub_time.cc', 'src/sub_time.h', 'src/rational.h'], [('comparison operators', 'src/sub_time.cc')])
p('C02', 'Times survive construction, decomposition, conversion and printing',
  'A time built from hours, minutes, seconds and frames has exactly those seconds and frames; its hours, minutes and seconds are the mixed-radix digits of its whole seconds; building from a frame count loses no frame and refuses rates that are not whole numbers. Converting to another rate gives the nearest frame and is exact when the instant falls on a frame; printing shows hh:mm:ss:frames and the rate.',
  ['inputs'], 'all component values whose total fits 31 bits; all rates with numerator up to 10^6 and denominator up to 2000',
  'Tests fix a few values; rounding, carries and rate conversion go wrong only for particular combinations.',
  ['src/sub_time.cc', 'src/sub_time.h', 'src/rational.cc'], [('from_hmsf / from_hms / from_frames', 'src/sub_time.cc'), ('frames_at, milliseconds, all_as_seconds', 'src/sub_time.cc'), ('operator<<', 'src/sub_time.cc')])
p('C03', 'Adding and scaling times gives the nearest frame of the true result',
  'Adding two rated times gives the sum of both instants at the greater of the two rates, to the nearest frame; scaling gives the scaled instant at the same rate, to the nearest frame. The result always has fewer frames than one second holds, and times without a usable rate are refused.',
  ['inputs'], 'all rated normalised times whose result fits 31 bits of frames, all non-negative scale factors in range',
  'Tests use about ten sums; truncation, carry and rate-selection errors depend on the operands.',
  ['src/sub_time.cc', 'src/rational.cc'], [('Time::add', 'src/sub_time.cc'), ('Time::scale', 'src/sub_time.cc'), ('max of two rates', 'src/rational.cc')])
p('C04', 'Collecting raw pieces loses nothing and groups by time and position',
  'Collecting raw subtitle pieces puts every piece into exactly one subtitle whose start and end are that piece\'s, in time order; pieces sharing start and end share one subtitle, and pieces of one subtitle sharing a vertical position share one line, in order. Text, font, size, colour, effects, flags, positions and fades of the pieces are carried over unchanged.',
  ['inputs'], 'all lists of raw subtitles (any length, any times at comparable rates, any positions)',
  'Tests collect a few hand-made lists; conservation and grouping are statements about all lists, including equal times at different rates and interleaved positions.',
  ['src/collect.h', 'src/subtitle.cc', 'src/raw_subtitle.cc'], [('collect', 'src/collect.h'), ('operator< for raw subtitles', 'src/raw_subtitle.cc'), ('Subtitle/Line/Block constructors and same_metadata', 'src/subtitle.cc')])
p('C05', 'SubRip and WebVTT timestamps are read as the time they spell',
  'A SubRip or WebVTT timestamp hh:mm:ss with a millisecond part is read as exactly that many hours, minutes, seconds and milliseconds (whole numbers, for any time that fits the library\'s 32-bit seconds). Text that is not such a timestamp is rejected, never read as some other time.',
  ['inputs'], 'every string',
  'Tests contain well-formed stamps only; accepting exactly the format is a statement about every string.',
  ['src/subrip_reader.cc', 'src/web_vtt_reader.cc'], [('SubripReader::convert_time', 'src/subrip_reader.cc')])
p('C06', 'SubRip inline markup sets style for exactly the text it encloses',
  'Bold, italic, underline and font colour tags in SubRip text (angle or brace form) apply to exactly the characters between opening and closing tag, colours nest and are restored, and every other character of the text is delivered unchanged and in order. Unknown or unmatched tags never lose, reorder or restyle unrelated text.',
  ['inputs'], 'every line of text, every nesting and interleaving of tags, and every sequence of lines of one subtitle',
  'Tests use a dozen tagged lines; tag state is a history over the characters of the line and earlier lines.',
  ['src/subrip_reader.cc', 'src/colour.cc'], [('SubripReader::convert_line', 'src/subrip_reader.cc'), ('maybe_content', 'src/subrip_reader.cc')])
p('C07', 'SubRip files are read block by block without loss',
  'Every cue of a SubRip file yields its text lines, in order, with that cue\'s start and end times and one row of vertical position per line; blank lines end a cue, a counter line yields nothing, and a last cue without trailing blank line is still delivered. A malformed cue stops reading with an error that names the line and recent context, and nothing is silently skipped or attributed to another cue.',
  ['inputs', 'histories'], 'every sequence of lines',
  'Tests read a few files; the reader is a state machine whose behaviour depends on the whole line history.',
  ['src/subrip_reader.cc', 'src/util.cc'], [('SubripReader::read', 'src/subrip_reader.cc')])
p('C08', 'WebVTT files are read cue by cue without loss',
  'A WebVTT file must start with its header; every cue then yields its text lines in order with the cue\'s times and incrementing rows, and notes, identifiers and blank lines yield nothing. Malformed headers or timings are reported as errors with context.',
  ['inputs', 'histories'], 'every sequence of lines',
  'Tests read a few files; the reader is a state machine over the line history.',
  ['src/web_vtt_reader.cc', 'src/util.cc'], [('WebVTTReader::read', 'src/web_vtt_reader.cc')])
p('C09', 'SSA override tags style exactly the text that follows them',
  'In an SSA dialogue line every override tag (bold, italic, underline, size, colour, alignment, position) changes exactly the attributes it names, for the text after it, using the script resolution; unknown tags change nothing. Forced line breaks start a new line one row further down (or up, for bottom-aligned text, earlier lines move), and all other text is delivered unchanged and in order.',
  ['inputs'], 'every text of a dialogue line, every base style, every play resolution and margins',
  'Tests check about twenty lines; tags, braces and breaks interact over the whole line.',
  ['src/ssa_reader.cc'], [('SSAReader::parse_line', 'src/ssa_reader.cc'), ('SSAReader::parse_tag', 'src/ssa_reader.cc'), ('Context::update_horizontal_position', 'src/ssa_reader.cc')])
p('C10', 'SSA and ASS files apply the right style and times to every event',
  'Every dialogue event of an SSA or ASS file yields its text with its own start and end times and the named style\'s font, size, colour, flags, alignment and margins, whatever order the format lines declare their fields in; comments and other sections yield nothing. Style alignments and margins map to the documented screen positions in both dialects.',
  ['inputs', 'histories'], 'every sequence of lines',
  'Tests read a few files with the usual field order.',
  ['src/ssa_reader.cc'], [('SSAReader::read', 'src/ssa_reader.cc'), ('Style', 'src/ssa_reader.cc'), ('parse_time', 'src/ssa_reader.cc'), ('Context', 'src/ssa_reader.cc')])
p('C11', 'Spruce STL text subtitles keep times, style and text',
  'Every subtitle line of a Spruce STL text file yields its text with the exact start and end frame times it states, the style settings in force at that point, and one line further down for each line break. Settings lines and comments yield nothing and settings apply to all later subtitles; lines of no known form are skipped, and numbers that are not numbers are reported as errors.',
  ['inputs', 'histories'], 'every sequence of lines',
  'The tests read one file; bold/italic/underline toggles and settings are history dependent.',
  ['src/stl_text_reader.cc', 'src/vertical_reference.cc', 'src/effect.cc'], [('STLTextReader::STLTextReader', 'src/stl_text_reader.cc'), ('STLTextReader::set', 'src/stl_text_reader.cc'), ('maybe_push', 'src/stl_text_reader.cc')])
p('C12', 'EBU STL headers are written at the exact field offsets',
  'The general subtitle information block of a written EBU STL file is exactly 1024 bytes with each field at its EBU Tech 3264 offset, padded as the standard says, carrying the given metadata, language, frame rate code, block and subtitle counts. Metadata too long for its field is refused rather than allowed to shift others.',
  ['inputs'], 'all metadata strings, all languages, the four frame rates with a disk format code (23.976, 24, 25 and 30), revision numbers from 0, fewer than 100000 subtitles and blocks',
  'The tests compare two written files; offsets and counts must hold for all metadata.',
  ['src/stl_binary_writer.cc', 'src/stl_binary_tables.cc', 'src/stl_util.cc'], [('make_gsi_block / write_stl_binary', 'src/stl_binary_writer.cc')])
p('C13', 'EBU STL text blocks carry every line, style and time',
  'Writing subtitles as EBU STL yields 128-byte text blocks, whose extension block numbers count from 0 and end with FF for the last block of a subtitle, whose time codes are the subtitle\'s start and end at the file\'s frame rate, whose rows come from the lines\' vertical positions, and whose text field holds every line\'s characters with italic and underline control codes around exactly the styled parts. Text too long for one block continues in extension blocks.',
  ['inputs'], 'all subtitles with at least one line (any number of lines, blocks and characters)',
  'The tests write two files; chunking, row gaps and style switches depend on the text.',
  ['src/stl_binary_writer.cc', 'src/iso6937.cc', 'src/vertical_position.cc'], [('make_tti_blocks', 'src/stl_binary_writer.cc'), ('put_timecode', 'src/stl_binary_writer.cc'), ('vertical_position', 'src/stl_binary_writer.cc')])
p('C14', 'EBU STL files are read with their header, times, rows and styles',
  'Reading an EBU STL file gives the header fields at their offsets, and for every text block (extension blocks included) the text decoded from ISO 6937, with times from the time code fields at the file\'s frame rate, row and row count (rows that would go off the bottom of the screen are moved up), justification, and the italic and underline state in force at each character. A truncated file or a header with an unknown code is reported as an error.',
  ['inputs', 'histories'], 'every byte sequence',
  'The tests that read binary STL need private data and do not run here.',
  ['src/stl_binary_reader.cc', 'src/stl_binary_tables.cc', 'src/iso6937.cc'], [('STLBinaryReader::read', 'src/stl_binary_reader.cc')])
p('C15', 'EBU STL code tables are mutually inverse and complete',
  'Every code of the EBU STL tables (display standard, character code table, language, time code status, cumulative status, justification, comment flag) decodes to the value the standard assigns and that value encodes back to the same code; unknown codes are reported as errors. Frame-rate codes map to the frame rate and back.',
  ['inputs'], 'every code and every enumerated value',
  'The tests do not exercise the tables beyond one or two languages.',
  ['src/stl_binary_tables.cc', 'src/stl_util.cc'], [('STLBinaryTables', 'src/stl_binary_tables.cc'), ('stl_frame_rate_to_dfc', 'src/stl_util.cc')])
p('C16', 'ISO 6937 conversion is lossless and independent of history',
  'Every ISO 6937 byte string decodes to the characters the standard assigns, with a diacritical prefix combining only with the next byte; every character that has an ISO 6937 code encodes to a string that decodes back to it, and characters that have none are dropped without affecting their neighbours. The result depends on the argument only, never on what was converted before.',
  ['inputs', 'histories'], 'every byte string, every character string, every history of previous conversions',
  'Tests convert a few words.',
  ['src/iso6937.cc', 'src/iso6937_tables.cc'], [('iso6937_to_utf16', 'src/iso6937.cc'), ('utf16_to_iso6937', 'src/iso6937.cc'), ('make_iso6937_tables', 'src/iso6937_tables.cc')])
p('C17', 'Positions compare and convert consistently',
  'A vertical position given as a proportion or as a line of so many lines, from the top, centre or bottom of the screen, converts to the corresponding fraction of the screen from the top; positions are ordered by that fraction and equal exactly when they describe the same place in the same terms. Horizontal positions, colours, font sizes, blocks, lines and subtitles are equal exactly when all their parts are.',
  ['inputs'], 'all combinations of set and unset parts, all references and values',
  'Tests check a handful of positions.',
  ['src/vertical_position.cc', 'src/horizontal_position.cc', 'src/subtitle.cc'], [('fraction_from_screen_top, operator<, operator==', 'src/vertical_position.cc'), ('operator==', 'src/horizontal_position.cc'), ('operator== (Block, Line, Subtitle)', 'src/subtitle.cc')])
p('C18', 'Reading from a file or from a string gives the same subtitles',
  'A text subtitle read from an open file gives the same result as the same text read from a string, whatever the line lengths and whether or not the last line ends with a newline; a leading UTF-8 byte order mark and trailing carriage returns never become part of the subtitles. Blank means empty or only white space.',
  ['inputs'], 'all texts without NUL bytes',
  'Tests read ordinary short-lined files, mostly through one of the two paths.',
  ['src/util.cc', 'src/subrip_reader.cc', 'src/web_vtt_reader.cc', 'src/ssa_reader.cc'], [('get_line_string / get_line_file', 'src/util.cc'), ('remove_unicode_bom', 'src/util.cc'), ('empty_or_white_space', 'src/util.cc')])
p('C19', 'The dump shows every subtitle, line and piece in order',
  'Dumping a reader prints its metadata and then, for each collected subtitle in order, its number and times, each line\'s vertical position, and each piece\'s text with italic and underline marked exactly where they start and end. Nothing is left out, repeated or shown for the wrong subtitle.',
  ['inputs'], 'every reader content',
  'The dump tests need private data and do not run here.',
  ['src/util.cc'], [('dump', 'src/util.cc')])
p('C20', 'No input makes the library read or write outside its data',
  'Whatever bytes are given to a reader or conversion, it returns subtitles or throws one of the library\'s (or the standard library\'s) exceptions; it never indexes past a container, dereferences an empty optional or null, divides by zero, overflows a buffer, or hangs. The same holds for writing any subtitles within the documented limits.',
  ['inputs', 'histories'], 'every byte sequence for every reader',
  'Tests only feed valid files.',
  ['src/ssa_reader.cc', 'src/subrip_reader.cc', 'src/web_vtt_reader.cc', 'src/stl_text_reader.cc', 'src/stl_binary_reader.cc', 'src/iso6937.cc', 'src/stl_binary_writer.cc'],
  [('bounds, emptiness and size checks throughout', 'src/')])
p('C21', 'Colours, sizes and numbers convert exactly',
  'Hexadecimal colours give the red, green and blue of their digits in range 0 to 1, rgba() colours likewise; strings without enough digits are an error. Font sizes given in points and as proportion of screen height convert into each other through the screen height, preferring what was set; effect and position names are recognised exactly; numbers print and parse regardless of locale or width.',
  ['inputs'], 'every string, every number',
  'Tests check single examples.',
  ['src/colour.cc', 'src/font_size.cc', 'src/effect.cc', 'src/vertical_reference.cc', 'src/raw_convert.cc', 'src/locale_convert.cc'], [('Colour::from_rgb_hex / from_rgba_hex', 'src/colour.cc'), ('FontSize', 'src/font_size.cc'), ('string_to_effect', 'src/effect.cc'), ('raw_convert, locale_convert', 'src/raw_convert.cc')])
p('C22', 'The reader chosen for a file is the one for its format',
  'Given a file name, the library chooses the reader by its extension, whatever the letter case: .srt gives a SubRip reader; .stl gives the EBU STL reader when the file starts with a disk format code (STL in bytes 3 to 5) and the Spruce text reader otherwise; any other extension gives no reader. The returned reader has read the whole of that file, from its start.',
  ['inputs'], 'every file name and content',
  'Tests use one or two file names.',
  ['src/reader_factory.cc'], [('reader_factory', 'src/reader_factory.cc')])

NA = {}
LEVEL = {}
NOTE = 'contracts on the extracted source, discharged by z3/cvc5 per obligation; replay on an ASan/UBSan build of /repo/src decides where an obligation fails or is out of reach'
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P: f.write(json.dumps(q) + '\n')
    checks = []; na = []
    for q in P:
        i = q['id']
        if i in NA or not os.path.exists(V + '/specs/%s.py' % i.lower()):
            na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet'))); continue
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s' % i, thorough_cmd='python3-vt /verif/check.py %s --thorough' % i,
                           technique='contract-based deductive verification of the real code (symbolic execution of the extracted AST against contracts with loop invariants, z3/cvc5), counterexamples replayed on the built code',
                           level=LEVEL.get(i, 'proof'), level_note=NOTES.get(i, NOTE)))
    json.dump(dict(version=1, setup_cmd='python3-vt /verif/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
NOTES = {}
if __name__ == '__main__': main()
