"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SIG='src/melodia/core/signature.py';TONE='src/melodia/core/tone.py';NOTE='src/melodia/core/note.py'
TRK='src/melodia/core/track.py';MIDI='src/melodia/io/midi.py';CH='src/melodia/music/chord.py';PR='src/melodia/processing/track.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Signatures are exactly the fractions with a power-of-two denominator",
  "A signature can be constructed exactly when the nominator is a non-negative integer and the denominator a positive power of two; every other pair of integers is refused with ValueError. The signature reports exactly the nominator and denominator it was given, every operation that yields a signature yields a valid one, and no operation ever changes a signature that already exists.",
  ["inputs"],"all pairs of integers, and all signatures as operands of every signature operation",
  "The tests construct about ten signatures; validity must hold for unbounded integers and for the results of every operation.",
  [SIG],[("constructor guard","Signature.__init__"),("all results go through the constructor","Signature.to, normalized, __add__, __mul__, __abs__")],
  [("nominator, denominator","the fraction","Signature._nominator, Signature._denominator")])
p("C02","Signature comparison is comparison of the exact fractions",
  "For any two signatures a and b, each of a == b, a != b, a < b, a <= b, a > b and a >= b has the same truth value as the comparison of the rational numbers nominator/denominator. The result does not depend on which operand has the larger denominator, so signatures are totally ordered and 1/2, 2/4 and 4/8 are equal.",
  ["inputs"],"all pairs of signatures with unbounded nominators and denominators",
  "Six comparisons are tested and in none of them does the smaller denominator stand on the left with different values (the shipped code got exactly those wrong).",
  [SIG],[("common denominator","Signature._to_common_denominator"),("comparison methods","Signature.__eq__, __lt__, __le__, __gt__, __ge__")])
p("C03","Signature arithmetic and rescaling are exact",
  "The sum, product and absolute value of signatures denote exactly the sum, product and absolute value of their fractions. Rescaling to a denominator keeps the fraction and has exactly that denominator, and raises ValueError exactly when the requested denominator is not a power of two or is smaller than the current one. Normalizing always terminates, keeps the fraction and gives lowest terms (zero becomes 0/1).",
  ["inputs"],"all signatures and all requested denominators, unbounded integers",
  "About ten sums, products and rescalings are tested; exactness is about all integers and the normalizing loop about any number of iterations.",
  [SIG],[("rescaling","Signature.to"),("normalizing loop","Signature.normalized"),("sum and product","Signature.__add__, __mul__, __abs__")])
p("C04","Tone notation is parsed exactly, and everything else is refused",
  "A string is accepted as tone notation exactly when it is one letter A to G, followed by any number of '#' and 'b' characters in any order, followed by an optional octave number (a decimal integer, optionally negative). Its pitch is 12 times the octave (0 when absent) plus the letter's semitone (C 0, D 2, E 4, F 5, G 7, A 9, B 11) plus the number of sharps minus the number of flats. Any other string is refused with ValueError. (Octave numbers of up to 4300 digits; Python reads no longer ones by default.)",
  ["inputs"],"all strings",
  "The tests parse about forty strings; the language is infinite and acceptance of malformed strings is not tested (the shipped code accepted trailing garbage).",
  [TONE],[("grammar","_notation_regex"),("letter table","_tone_mapping"),("pitch computation","Tone.from_notation")])
p("C05","Formatting a tone as notation and parsing it back gives the same tone",
  "For every integer pitch and both spellings, the notation of a tone parses back to the same pitch. The notation is the natural letter with no accidental where the pitch class is natural, otherwise one sharp on the letter below (default) or one flat on the letter above (when transposing down), followed by the octave number floor(pitch/12); the text form of a tone is its default notation. (Octave numbers of up to 4300 digits; Python writes no longer ones by default.)",
  ["inputs"],"all integer pitches, positive and negative, and both spellings",
  "Formatting is tested on 14 tones, round trip on none; negative octaves and all 12 pitch classes in both spellings must hold for unbounded pitches.",
  [TONE],[("formatting","Tone.to_notation, Tone.__str__"),("reverse letter table","_reverse_tone_mapping"),("parsing","Tone.from_notation"),("octave","Tone.octave")])
p("C06","Tones behave as integers of the chromatic scale",
  "A tone reports exactly the integer pitch it was constructed with, a non-integer pitch is refused with ValueError, and its octave is floor(pitch/12). Transposing by k semitones gives a new tone whose pitch is larger by exactly k and leaves the original unchanged. Equality and the four order comparisons of tones agree with those of their pitches.",
  ["inputs"],"all integers as pitches and transpositions, all pairs of tones",
  "A handful of pitches is tested; the order and transposition laws quantify over all integers.",
  [TONE],[("constructor","Tone.__init__"),("transposition","Tone.transposed"),("comparisons","Tone.__eq__, __lt__, __le__, __gt__, __ge__")])
p("C07","Tone frequency follows twelve-tone equal temperament",
  "The frequency of a tone is base * 2**((pitch - 57)/12) Hz: A4 has exactly the base frequency, 12 semitones double it, and a higher tone has a higher frequency. The base defaults to 440 Hz and scales every frequency linearly.",
  ["inputs"],"all pitches and all positive base frequencies",
  "The tests use only the default base and 13 pitches, 11 of them A.",
  [TONE],[("formula","Tone.to_frequency")])
p("C08","A note holds exactly the tone, duration and velocity it was given",
  "A note constructed from a tone, integer pitch or notation, from a signature or pair of integers as duration, and from a velocity reports the tone, duration and velocity these denote (defaults: duration 1/4, velocity 0.75). A velocity outside [0.0, 1.0], an invalid pair or an unparsable notation is refused with ValueError, and a tone or duration of any other kind with TypeError. A note never changes after construction.",
  ["inputs"],"all combinations of tone kinds, duration kinds and velocities",
  "Nine constructions are tested, with two out-of-range velocities and no NaN or boundary value.",
  [NOTE],[("coercion and guards","Note.__init__"),("accessors","Note.tone, Note.duration, Note.velocity")])
p("C09","Deriving a note changes one component and keeps the others",
  "Transposing a note by k gives a note whose pitch is larger by k and whose duration and velocity are the same; replacing the duration keeps tone and velocity; replacing the velocity keeps tone and duration. The original note is unchanged, and an invalid new duration or velocity is refused exactly as in the constructor.",
  ["inputs"],"all notes, transpositions, durations and velocities",
  "One example per operation is tested, all with valid arguments.",
  [NOTE],[("functional updates","Note.transposed, Note.with_duration, Note.with_velocity")])
p("C10","Notes are totally ordered by pitch, then duration, then velocity",
  "For any two notes every comparison (==, !=, <, <=, >, >=) has the truth value of comparing the triples (pitch, duration as an exact fraction, velocity) lexicographically. In particular notes with equal pitch are ordered by duration whatever the denominators are.",
  ["inputs"],"all pairs of notes",
  "The tests compare only notes that differ in pitch; ties in pitch with different denominators are never tried.",
  [NOTE,SIG],[("triple","Note._as_triplet"),("comparisons","Note.__eq__, __lt__, __le__, __gt__, __ge__")])
p("C11","Adding to a track keeps every note at its exact position",
  "After any sequence of additions the track contains, with multiplicity, exactly the notes that were added, each with unchanged tone, duration and velocity and at a position equal to the fraction it was added at. A group of notes added at once all share one position, an addition without a position goes to the track's end as it was before the call, and an invalid position is refused with ValueError and leaves the track as it was. The number of notes reported is the number added, and the time signature stays the one the track was made with (4/4 when none is given).",
  ["inputs","histories"],"all sequences of additions with arbitrary positions, denominators, groups and interleaved reads",
  "The tests follow one short history; rescaling of stored positions when a finer denominator arrives, in every order, is not covered.",
  [TRK],[("insertion and rescaling","Track.add"),("construction from content","Track.__init__"),("count","Track.__len__")],
  [("stored notes","list of (position, note)","Track._heap"),("common denominator","largest position denominator so far","Track._max_denominator")])
p("C12","Iterating a track yields all its notes in ascending order, every time",
  "Iterating a track yields exactly its notes with their positions, once each, in ascending order of position and, at equal positions, in ascending order of the notes. This holds however additions and iterations were interleaved before, and iterating again yields the same sequence.",
  ["histories"],"all interleavings of additions and iterations on a track",
  "One history with three additions is tested; sortedness must survive every interleaving.",
  [TRK],[("lazy sort","Track.__iter__"),("invalidation","Track.add sets _sorted")],
  [("sorted flag","stored list is known to be sorted","Track._sorted")])
p("C13","Track length is the right-most end of any note",
  "The length of a track is zero when it has no notes and otherwise the largest position plus duration over its notes, as an exact fraction, whatever the denominators and the order in which the notes were added. It never decreases when a note is added.",
  ["inputs","histories"],"all sequences of additions with arbitrary positions and durations",
  "Three additions with growing denominators are tested; the shipped code gave a too short length for other orders.",
  [TRK,SIG],[("running maximum","Track.add"),("accessor","Track.length")],
  [("running maximum","largest end so far","Track._max_position")])
p("C14","Tracks are equal exactly when signature and contents are equal",
  "Two tracks compare equal exactly when their time signatures are equal as fractions and they contain the same notes at the same positions with the same multiplicity, independent of the order of addition and of how positions and durations are written. In particular a track is never equal to one with more or fewer notes.",
  ["inputs","histories"],"all pairs of tracks",
  "The tests compare empty tracks and tracks with themselves; two tracks with different contents are never compared (the shipped code called a track equal to any prefix of it).",
  [TRK],[("comparison","Track.__eq__")])
p("C15","MIDI variable-length quantities encode and decode exactly",
  "For every non-negative integer the writer emits the shortest big-endian base-128 encoding: seven value bits per byte, the high bit set on every byte but the last. Reading consumes bytes up to and including the first one with a clear high bit, returns the number they encode and leaves the position right after them, or raises the MIDI parsing error when the data ends first; so reading an encoding gives back the integer.",
  ["inputs"],"all non-negative integers and all byte strings",
  "Twelve values are encoded and seven decoded; positions after reading, truncated input and longer values are not covered.",
  [MIDI],[("encoder","MIDIWriter._format_var_len"),("decoder","MIDIReader._read_var_len"),("cursor","_Reader.read")])
p("C16","Written MIDI messages carry the right bytes, or are refused",
  "A note is written as a note-on message with the writer's channel, key 60 + pitch - middle C, and velocity truncated to 0..127 (v*127), and a note-off message with the same channel and key and velocity 64; a tone whose key is outside 0..127 is refused with ValueError. The header chunk states format, track count and pulses per quarter note, each chunk its four-letter kind and exact body length in four big-endian bytes, the time signature its nominator and the exponent of its denominator, and the tempo the truncated microseconds per quarter note, 60000000/bpm; a value that does not fit its field is refused, never wrapped.",
  ["inputs","configurations"],"all notes, channels 0-15, middle C settings, resolutions, signatures and tempos",
  "The tests use channel 3, two middle C settings and velocities 0, 1 and out-of-range; other channels, fractional velocities, the tempo event and the boundary keys are not covered.",
  [MIDI],[("note messages","MIDIWriter._format_note_on, _format_note_off"),("meta events","_format_signature, _format_tempo"),("chunks","_format_chunk, _format_header_chunk"),("configuration guards","MIDIWriter.__init__")])
p("C17","Dumping writes one well-formed track with every note at its time",
  "Dumping a track writes exactly a format-0 header chunk and one track chunk whose declared length is its real length, containing the time signature, the tempo, one note-on and one note-off per note, and a final end-of-track event, each preceded by its delta time. Adding up the delta times, which are never negative, gives note-on times floor(pulses per whole note * position) and note-off times larger by floor(pulses per whole note * duration); simultaneous events stay in track order, so a note that ends when the next one of the same tone starts is switched off first and a note of zero length is switched on before off. A dump that raises has written nothing, and dumping to a file, to bytes or with the module functions gives the same bytes.",
  ["inputs","configurations"],"all tracks and writer configurations",
  "No test looks at a dumped file except by reading random non-overlapping notes back with the default writer.",
  [MIDI],[("event list","MIDIWriter.dump"),("time conversion","MIDIWriter._signature_to_pulses"),("byte variants","MIDIWriter.dumps, dump, dumps")])
p("C18","The MIDI reader decodes every event at the right place and time",
  "The absolute time of an event is the sum of all delta times up to it. The reader understands note-on (velocity 0 counts as note-off), note-off, running status, time signature, channel prefix and end of track, and skips every other channel, system and meta event and system exclusive message by exactly its length, so events after it are still decoded; chunks of other kinds are skipped by their full four-byte length. A status byte that MIDI leaves undefined (0xF4, 0xF5, 0xF7, 0xF9, 0xFD) is refused with a parsing error, as its length is unknown. Reading stops at the end-of-track event.",
  ["inputs"],"all event streams mixing supported and unsupported events",
  "The reader is tested only on files melodia wrote, which contain no running status, no unsupported event and no foreign chunk (the shipped code failed on every system exclusive message).",
  [MIDI],[("event decoding","read_event in MIDIReader._parse_track"),("event lengths","_event_lengths"),("chunk iteration","MIDIReader._read_chunks"),("chunk dispatch","MIDIReader.load")])
p("C19","Reading arbitrary bytes ends in a track or a parsing error",
  "For every byte string, reading it as a MIDI file terminates and either returns a track or raises the library's MIDI parsing error; the only other outcome is ValueError when a channel was asked for that the file does not contain. No input makes it loop forever, recurse without bound or fail with any other exception.",
  ["inputs"],"all byte strings and all requested channels",
  "Only well-formed files are tested; crash freedom is about every malformed file (the shipped code failed with RecursionError and AssertionError on some).",
  [MIDI],[("bounded cursor","_Reader.read, shift"),("header checks","MIDIReader.load, _parse_header"),("event decoding","MIDIReader._parse_track")])
p("C20","The MIDI reader turns note-on/off pairs into exactly the played notes",
  "On each channel every note-on of a key that is not sounding, together with the next note-off of that key, becomes one note: tone = key - 60 + middle C, position and duration the note-on time and the time difference converted to floor(t*4096/ticks per quarter)/16384 of a whole note (exact whenever representable), velocity = note-on velocity/127 capped at 1.0; note-ons of a sounding key, note-offs of a silent key and notes never switched off produce nothing. Asking for a channel gives that channel's track, with the time signature that applies to it (its own, else the global one, else 4/4); asking for none gives all channels' notes in one track with the largest of their signatures.",
  ["inputs"],"all event sequences, resolutions, channels and middle C settings",
  "Only one channel, one resolution and non-overlapping notes of velocity 1.0 are tested.",
  [MIDI],[("pairing","MIDIReader._parse_track"),("time conversion","MIDIReader._time_to_signature"),("key conversion","MIDIReader._pitch_to_tone"),("channel selection and merge","MIDIReader.load")])
p("C21","Writing a track and reading it back gives the track",
  "For every track whose notes have keys in 0..127, velocities of at least 1/127, positions and durations that are whole numbers of pulses and representable by the reader, no two notes of the same tone overlapping, and a signature with a non-zero nominator that fits its field, reading the dumped bytes gives a track with the same signature, the same tones, positions and durations, and each velocity rounded down to a multiple of 1/127. This holds for every channel, every middle C shared by writer and reader, and every resolution, and writing the result again gives the same bytes.",
  ["inputs","configurations"],"all representable tracks and all matching writer/reader configurations",
  "The test round-trips one note per position at distance, velocity 1.0, default writer; adjacent equal tones, chords, zero durations, other channels, resolutions and velocities are not covered.",
  [MIDI,TRK],[("writer","MIDIWriter.dump"),("reader","MIDIReader.load, _parse_track"),("inverse conversions","_signature_to_pulses, _time_to_signature, _read_var_len, _format_var_len")])
p("C22","Every chord consists of its intervals above the base",
  "For every chord function, base (integer, notation, tone or note), duration and velocity, the result is the tuple of notes whose pitches are the base pitch plus the chord's fixed intervals, in ascending order starting at the base itself, and all aliases of a chord agree. All notes have the given duration and velocity; when omitted, those of the base note, or else 1/4 and 0.75. The module that the generator script produces has the same functions with the same results.",
  ["inputs"],"all chord functions, bases, durations and velocities",
  "There is no test of the chord module at all.",
  [CH,'scripts/generate_chords.py'],[("defaults","_get_parameters"),("49 chord functions","melodia.music.chord"),("interval table","scripts/generate_chords.py")])
p("C23","Randomizing velocities changes nothing but velocities, within bounds",
  "The result is a new track with the same time signature and, for each note of the input, one note of the same tone and duration at the same position; the input track's contents are unchanged. For minimum not above maximum every velocity of the result lies in [minimum, maximum], whatever the random numbers are. A minimum, maximum or mean outside [0.0, 1.0] and a variance that is not at least zero are refused with ValueError.",
  ["inputs"],"all tracks, parameters and random number sequences",
  "There is no test of the processing module; the bound must hold for every outcome of the random generator.",
  [PR],[("clamp and copy","randomize_velocities")])
p("C24","The representation of every object evaluates back to an equal object",
  "Evaluating the representation text of a tone, signature, note or track as a Python expression, with the class names in scope, gives an object equal to the original; for tracks this includes all notes, positions and the time signature, and for signatures nominator and denominator are preserved exactly. (Numbers of up to 4300 digits; Python writes no longer ones by default.)",
  ["inputs","histories"],"all tones, signatures, notes and tracks",
  "No test looks at a representation.",
  [TONE,SIG,NOTE,TRK],[("representations","Tone.__repr__, Signature.__repr__, Note.__repr__, Track.__repr__")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
