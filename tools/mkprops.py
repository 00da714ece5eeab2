#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the
statements are reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

PAR = "client/parser/"; MOD = "client/model/"; REPL = "client/repl/"; TX = "client/transmitter/"
IMP = "client/interop/musicxml/importer/"; SYS = "client/system/"; CMD = "client/cmd/"

# ---------------------------------------------------------------- front end
p("P01", "Parsing any text terminates and either succeeds or fails cleanly",
  "For every input text, parsing terminates and returns either a syntax tree or an ordinary error, never a crash, and the same text always gives the same result. "
  "A text that is a score in the documented syntax is accepted and yields exactly the constructs that were written, in order. "
  "A text containing a construct the language does not have is rejected rather than silently parsed as something else.",
  ["inputs"], "every Unicode text: well-formed scores, mutated scores, token soups and arbitrary bytes",
  "The parser tests feed a few dozen hand-written well-formed snippets; none feeds malformed text systematically, so totality over all inputs is untested.",
  [PAR+"scanner.go", PAR+"parser.go", PAR+"ast.go"],
  [("token scanner", PAR+"scanner.go:scanToken"), ("recursive-descent parser", PAR+"parser.go:Parse"),
   ("panic recovery boundary", PAR+"parser.go:Parse"), ("AST to events", PAR+"ast.go:Updates")],
  observe=["return value of parsing a string or file", "exit status of `alda parse`"])
p("P02", "Reported source positions point at the text they describe",
  "Every note, rest, attribute, name and other construct in the parsed result carries the line and column at which it was written. "
  "An error raised while parsing or evaluating a score is reported with a line and column that lie within the input: an unacceptable character at its own position, and a construct that cannot be evaluated at its own position or that of a construct enclosing it.",
  ["inputs"], "every score text and every layout of it (newlines, tabs, comments, CRLF), and every position at which an error is planted",
  "Tests strip source context before comparing; no test checks a reported line or column.",
  [PAR+"scanner.go", PAR+"parser.go", MOD+"source_context.go", MOD+"score.go"],
  [("line/column bookkeeping", PAR+"scanner.go:advance"), ("token source context", PAR+"parser.go:sourceContext"),
   ("error wrapping with context", MOD+"score.go:Update")],
  observe=["line/column in error text", "line/column of events"])
p("P03", "Layout, comments and bar lines never change the music",
  "Two texts of the same score that differ only in insignificant white space, line breaks, line-ending style, comments or bar lines evaluate to the same notes and the same final state of every part.",
  ["inputs"], "every score and every re-layout of it",
  "Comment and bar-line tests cover seven fixed snippets.",
  [PAR+"scanner.go", PAR+"parser.go", MOD+"barline.go"],
  [("whitespace and comment skipping", PAR+"scanner.go:scanToken"), ("bar lines inside durations", PAR+"parser.go:duration"),
   ("bar lines as no-ops", MOD+"barline.go:UpdateScore")])
p("P04", "Formatting a score preserves its meaning",
  "Formatting any valid score, with any line width and any white-space indentation, produces text that parses to the same sequence of musical events as the original and therefore to the same music. "
  "Formatting already formatted text with the same settings leaves it unchanged. "
  "Formatting never fails on a score that parses.",
  ["inputs", "configurations"], "every valid score, every wrap width and indent text",
  "The formatter has no tests at all.",
  [PAR+"format.go", CMD+"format.go"],
  [("token grouping and line wrapping", PAR+"format.go:FormatASTToCode"), ("duration/literal rendering", PAR+"format.go")])
p("P05", "Musical events can be written back as Alda code without change",
  "For every sequence of musical events that a score text can denote (including octave, dynamics, key-signature and transposition changes already evaluated from inline Lisp), generating Alda code from the events and parsing it again yields an equivalent sequence of events.",
  ["inputs", "programs"], "every event sequence expressible in Alda syntax",
  "Only two generation cases (via the importer test helper) exist; nothing states that generation inverts parsing.",
  [PAR+"gen.go", PAR+"ast.go", PAR+"format.go"],
  [("event to AST generation", PAR+"gen.go:GenerateASTFromScoreUpdates"), ("AST to events", PAR+"ast.go:Updates")])
p("P06", "Structured outputs are valid, complete and consistent",
  "For every valid score, the syntax-tree, event and score data outputs are valid JSON that faithfully carry the parsed or evaluated values: every node with its text and position, every note's pitch, time, duration, volume and channel, every part, alias, marker and variable. "
  "The human-readable tree shows the same nodes in the same order as the JSON tree.",
  ["inputs"], "every valid score",
  "No test inspects any JSON output.",
  [PAR+"ast.go", MOD+"score.go", MOD+"part.go", MOD+"note.go", "client/json/json.go", CMD+"parse.go"],
  [("AST JSON", PAR+"ast.go:JSON"), ("human readable AST", PAR+"ast.go:HumanReadableAST"), ("score JSON", MOD+"score.go:JSON")])
# ---------------------------------------------------------------- evaluation
p("P07", "Notes and rests are placed and timed exactly as written",
  "In each part, every note starts where the preceding note or rest ended; its length is the sum of its tied note values, dotted values, seconds and milliseconds at the tempo then in force, or the most recently specified length when none is written. "
  "The sounding part of a note is that length scaled by the quantization, or the full length when it is slurred, and rests advance time without sounding. A length of zero is rejected, wherever it is written.",
  ["inputs"], "every sequence of notes and rests with every combination of note values, dots, ties, real-time durations, tempos, quantization and slurs",
  "Duration tests sample about twenty fixed durations; the arithmetic must hold for all combinations and histories.",
  [MOD+"note.go", MOD+"duration.go", MOD+"attributes.go"],
  [("note/rest placement", MOD+"note.go:addNoteOrRest"), ("duration arithmetic", MOD+"duration.go:Ms"),
   ("sticky duration", MOD+"note.go:updateDefaultDuration")],
  state=[("part offset/duration/tempo", "running position and defaults of each part", MOD+"part.go:Part")])
p("P08", "Sounding pitch follows octave, accidentals, key and transposition",
  "The MIDI pitch of every note is determined by its letter, the octave in force, its own accidentals or, if it has none, those of the key signature in force, plus the transposition in force. "
  "Every documented way of writing a key signature (accidental string, accidental list, tonic with any mode) denotes the same key that music theory assigns to it. "
  "A note whose pitch would fall outside 0-127 is rejected with an error instead of being altered.",
  ["inputs"], "every letter, accidental string, octave history, key signature spelling and transposition",
  "A handful of pitches and keys are sampled in tests; 12 tonics x 7 modes x 7 letters x octave histories are not.",
  [MOD+"pitch.go", MOD+"key.go", MOD+"lisp.go", MOD+"note.go"],
  [("pitch arithmetic", MOD+"pitch.go:CalculateMidiNote"), ("scale to key signature", MOD+"key.go:KeySignatureFromScale"),
   ("range check", MOD+"note.go:addNoteOrRest")])
p("P09", "All notes of a chord start together and the chord lasts its shortest member",
  "Every note of a chord starts at the same time, octave and attribute changes written between chord notes affect the notes after them, and each note has its own length (or the most recently specified one). "
  "What follows the chord starts when its shortest note or rest ends.",
  ["inputs"], "every chord shape, in every context (groups of parts, crams, repeats, voices)",
  "Chord tests cover a few fixed chords.",
  [MOD+"chord.go", MOD+"note.go", PAR+"parser.go"],
  [("chord evaluation", MOD+"chord.go:UpdateScore"), ("chord parsing", PAR+"parser.go:noteRestOrChord")])
p("P10", "A cram expression occupies exactly its duration, proportionally divided",
  "The contents of a cram expression together take exactly the duration of the cram, with each inner event receiving time in proportion to its own note length, at every nesting depth. "
  "Afterwards time continues at the end of the cram, note lengths written inside the cram do not leak out, and an event without a length uses the cram's own length if one was written and the previous length otherwise.",
  ["inputs"], "every cram content (notes, rests, chords, sequences, repeats, variables, nested crams, attribute changes), duration and nesting",
  "Cram tests cover a few fixed expressions, at most one nesting.",
  [MOD+"cram.go", MOD+"chord.go", MOD+"event_sequence.go", MOD+"repeat.go"],
  [("time scaling", MOD+"cram.go:UpdateScore"), ("inner duration sums", MOD+"cram.go:innerDurationMs")])
p("P11", "Repeats and alternate endings equal their written-out expansion",
  "Repeating any event or sequence N times evaluates to the same music as writing it out N times. "
  "Inside a repeated sequence, an event marked with repetition numbers is played exactly once on exactly those passes of the innermost sequence repeated around it, for every part being written, at any nesting of repeats.",
  ["inputs"], "every repeated event, count, set of repetition numbers, nesting and number of current parts",
  "Repeat tests cover fixed single-part, non-nested examples.",
  [MOD+"repeat.go", MOD+"repetitions.go", PAR+"parser.go"],
  [("repeat evaluation", MOD+"repeat.go:UpdateScore"), ("alternate endings", MOD+"repetitions.go:UpdateScore"), ("repeat parsing", PAR+"parser.go")])
p("P12", "A variable stands for the events it was defined with",
  "Using a variable is the same as writing out, in its place, the events it was given by its most recent definition, with variables inside that definition having the value they had when it was made. "
  "Redefining a variable changes later uses only, and using a variable that is not yet defined is an error.",
  ["inputs"], "every sequence of definitions, redefinitions, nested definitions and uses, in every event context",
  "Variable tests cover a few fixed definitions.",
  [MOD+"variable.go", MOD+"score.go", PAR+"parser.go"],
  [("capture at definition", MOD+"variable.go:VariableDefinition.UpdateScore"), ("dereference", MOD+"variable.go:VariableReference.UpdateScore")])
p("P13", "Voices run in parallel from a common start and rejoin at the longest",
  "Every voice of a group starts from the state its part had when the group began and is unaffected by the other voices; returning to the same voice number continues that voice. "
  "When the group ends, the part continues from the end of the longest voice.",
  ["inputs"], "every number, order, interleaving and length of voices, for one or several current parts, inside or outside other constructs",
  "Voice tests cover fixed two/three-voice examples.",
  [MOD+"voice.go", MOD+"part.go", PAR+"parser.go"],
  [("voice cloning", MOD+"voice.go:NewVoice"), ("group end", MOD+"voice.go:VoiceGroupEndMarker.UpdateScore")],
  state=[("voice template and voices", "state at the start of the group and running state per voice", MOD+"part.go:Part")])
p("P14", "Instrument calls select exactly the documented instances",
  "Every instrument call (plain name, alias, group, aliased group, dotted member access) either continues exactly the existing instances, or creates exactly the new ones, or is rejected, according to the documented rules for instance and group assignment. "
  "Returning to an instance continues it where it left off, with all its attributes, and notes go to all and only the instances currently selected.",
  ["inputs", "histories"], "every sequence of instrument calls over stock instruments, aliases and groups, interleaved with notes",
  "Part tests sample a few dozen call sequences of length at most three.",
  [MOD+"part.go", MOD+"instruments.go"],
  [("instance resolution", MOD+"part.go:determineParts"), ("alias table", MOD+"part.go:SetAlias")],
  state=[("parts and aliases", "instances in order of creation; alias to instances", MOD+"score.go:Score")])
p("P15", "Attribute changes affect exactly the following notes of the current parts",
  "Setting volume, track volume, panning, quantization, tempo, dynamics, octave, key, transposition or default length changes exactly that quality, exactly to the documented value, for exactly the following notes of the current parts until it is changed again. "
  "Values of the wrong kind or outside the documented range are rejected with an error and have no effect.",
  ["inputs", "histories"], "every attribute, abbreviation, argument form and value, over every history of changes and part switches",
  "Attribute tests set each attribute once to one or two values.",
  [MOD+"attributes.go", MOD+"lisp.go"],
  [("attribute updates", MOD+"attributes.go:updatePart"), ("argument validation", MOD+"lisp.go:percentage,positiveNumber,integerInRange")])
p("P16", "A global attribute takes effect for every part at its point in time",
  "An attribute set globally at some moment of the score applies to every part whose own time reaches or passes that moment later in the text, from the first note that part then plays at or after that moment; what a part has already played is unaffected. "
  "An attribute the part sets for itself at that same moment wins for that part, for every attribute so set.",
  ["inputs"], "every placement of global and local attribute changes over several parts, tempos and jumps in time",
  "Global-attribute tests cover three fixed scores.",
  [MOD+"attributes.go", MOD+"note.go", MOD+"marker.go"],
  [("global itinerary", MOD+"attributes.go:GlobalAttributes.InWindow"), ("application before notes", MOD+"attributes.go:ApplyGlobalAttributes")],
  state=[("global attribute itinerary", "offset to updates", MOD+"attributes.go:GlobalAttributes")])
p("P17", "Markers name a moment, and jumping to one moves exactly there",
  "Placing a marker records the current time of the part being written; jumping to a marker makes every current part continue exactly at that time, and nothing else about it changes. "
  "Placing a marker where the current parts disagree about the time, or jumping to one not yet placed, is an error.",
  ["inputs"], "every sequence of marker placements, replacements and jumps across parts",
  "Marker tests cover five fixed scores.",
  [MOD+"marker.go"], [("marker placement", MOD+"marker.go:Marker.UpdateScore"), ("marker jump", MOD+"marker.go:AtMarker.UpdateScore")])
p("P18", "No two instruments ever sound on the same MIDI channel at once",
  "Every note is assigned a MIDI channel from 0 to 15 such that two notes of different non-percussion instances that sound at the same time never share a channel, percussion is always on channel 9 and nothing else ever is. "
  "A channel requested explicitly for a melodic part is honoured or the score is rejected, and a score is rejected for lack of channels only when every usable channel is occupied by another instance during that note.",
  ["inputs", "histories"], "every score with any number of instances, explicit channel requests and overlapping or disjoint notes",
  "Channel tests cover about ten fixed scores.",
  [MOD+"midi.go", MOD+"note.go", MOD+"attributes.go"],
  [("channel assignment", MOD+"midi.go:assignMidiChannel"), ("overlap check", MOD+"midi.go:complexCheck")],
  state=[("channel usage", "instances that have used each channel", MOD+"midi.go:midiChannelUsage")])
p("P19", "Evaluating any parsed score yields valid finite notes or an error",
  "For every text that parses, evaluation terminates without crashing and either reports an error with a source position or yields notes whose pitch and channel are within MIDI range, whose times and lengths are finite and non-negative, and whose volume and panning lie between 0 and 1. "
  "Evaluating the same text again gives the same notes.",
  ["inputs"], "every text accepted by the parser, including extreme numbers, empty constructs and arbitrary Lisp forms",
  "Tests only evaluate sensible scores.",
  [MOD+"score.go", MOD+"lisp.go", MOD+"note.go", MOD+"cram.go", MOD+"duration.go"],
  [("score update loop", MOD+"score.go:Update"), ("Lisp evaluation", MOD+"lisp.go:Eval"), ("range checks", MOD+"note.go:addNoteOrRest")])
p("P20", "Inline Lisp and native syntax are two spellings of the same music",
  "Every note, rest, slur, pitch, duration, octave change or attribute written with its documented inline Lisp form evaluates to the same music as the equivalent native syntax or abbreviation. "
  "Lisp forms with the wrong number or type of arguments, unknown names or malformed values are rejected with an error.",
  ["inputs"], "every Lisp form of the music vocabulary with every argument shape",
  "Lisp tests evaluate a few fixed forms.",
  [MOD+"lisp.go", PAR+"parser.go"],
  [("function dispatch by signature", MOD+"lisp.go:Operate"), ("Lisp environment", MOD+"lisp.go:init"), ("Lisp score updates", MOD+"lisp.go:LispList.UpdateScore")])
# ---------------------------------------------------------------- transmission
p("P21", "Playback messages carry every note of the score exactly once and unchanged",
  "The messages sent to a player for a score contain, for every note, exactly one note message on its part's track with its channel, pitch, velocity, start and lengths (rounded to a millisecond), and no other. "
  "Before each note, the player has been told the instrument, track volume and panning that note needs on its channel.",
  ["inputs"], "every score",
  "The transmitter has no tests.",
  [TX+"osc.go", TX+"transmitter.go", MOD+"score.go"],
  [("score to OSC bundle", TX+"osc.go:ScoreToOSCBundle"), ("track numbering", MOD+"score.go:Tracks")])
p("P22", "Playing from/to a point plays exactly the notes in that window",
  "When playback or export is limited to a window by time marks or markers, exactly the notes starting at or after the beginning and before the end are sent, each shifted so that the beginning is time zero and otherwise unchanged. "
  "An unknown or malformed reference is rejected with an error and nothing is played.",
  ["inputs"], "every score, every pair of time marks and markers",
  "No tests.",
  [TX+"osc.go", TX+"transmitter.go", MOD+"score.go"],
  [("window filter", TX+"osc.go:ScoreToOSCBundle"), ("offset references", MOD+"score.go:InterpretOffsetReference")])
p("P23", "The exported tempo map is the score's tempo over time",
  "The tempo messages sent to a player describe the tempo of the score's first-declared part and of global tempo changes as a function of time: at every moment of the played window, the most recent tempo message gives the tempo in force, starting with the tempo in force at the beginning of the window.",
  ["inputs"], "every sequence of local and global tempo changes and metric modulations, and every playback window",
  "No tests reach the tempo messages.",
  [MOD+"score.go", TX+"osc.go", MOD+"attributes.go"],
  [("tempo itinerary", MOD+"score.go:TempoItinerary"), ("tempo messages", TX+"osc.go:ScoreToOSCBundle")])
# ---------------------------------------------------------------- REPL
p("P24", "Evaluating a score piece by piece equals evaluating it at once",
  "For every way of splitting a score between events into consecutive inputs to an interactive session (a group of voices, up to its end, counting as one event), the resulting score state (notes, parts, attributes, variables, markers) and accumulated score text are the same as for evaluating the whole at once. "
  "Each new input that is played sends exactly the notes it added, each exactly once over the session. Inputs of several clients take effect one after the other, and no client is shown the session in the middle of one.",
  ["histories", "inputs"], "every score, every split into inputs, every interleaving of evaluate and evaluate-and-play",
  "The interactive server has no tests.",
  [REPL+"server.go", MOD+"score.go", TX+"osc.go"],
  [("incremental evaluation", REPL+"server.go:updateScoreWithInput"), ("synchronised offsets", TX+"osc.go:SyncOffsets")],
  state=[("session score, input and event index", "what has been evaluated and what has been sent", REPL+"server.go:Server")])
p("P25", "A rejected input leaves the interactive session exactly as it was",
  "When an input to an interactive session (evaluate, evaluate-and-play or load) is rejected because of a syntax or evaluation error, the session's score, notes, variables, markers, text and current parts are exactly what they were before, and subsequent inputs behave as if the rejected one had never been sent.",
  ["histories", "fault_sequences"], "every history of valid and invalid inputs, with the error at any point inside any construct",
  "The interactive server has no tests; model tests never continue after an error.",
  [REPL+"server.go", MOD+"score.go", MOD+"chord.go", MOD+"cram.go"],
  [("evaluate with rollback", REPL+"server.go:updateScoreWithInput"), ("load", REPL+"server.go")])
p("P26", "The interactive server answers every request and survives any of them",
  "Every request a client sends to the interactive server, whatever its operation, fields, types or code, receives exactly one reply carrying the request's id and session and a status that says whether it succeeded, with a problem description when it did not. "
  "No request, malformed message or disconnecting client stops the server from serving other requests and clients.",
  ["inputs", "histories", "schedules"], "every sequence of requests, valid or not, from any number of concurrent clients",
  "The server has no tests.",
  [REPL+"server.go", REPL+"validation.go", REPL+"client.go"],
  [("request dispatch", REPL+"server.go:handleRequest"), ("field validation", REPL+"validation.go:validateRequest"), ("response envelope", REPL+"server.go:respond")])
# ---------------------------------------------------------------- import
p("P27", "Importing any MusicXML or other bytes ends in a score or a clear error",
  "For every input offered as MusicXML, import terminates and returns either a score or an ordinary error message, without crashing or hanging, and importing the same input again gives the same result. "
  "Every valid partwise score made of supported elements is imported, and the imported score can be written as Alda code that parses and evaluates without error.",
  ["inputs"], "every byte string: valid MusicXML, valid XML with missing or odd elements, and non-XML",
  "Importer tests cover a few well-formed files.",
  [IMP+"importer.go", IMP+"handlers.go", IMP+"util.go", IMP+"optimizer.go"],
  [("validation and panic boundary", IMP+"importer.go:ImportMusicXML"), ("element handlers", IMP+"handlers.go")])
p("P28", "An imported MusicXML score sounds like the original",
  "For every MusicXML score made of supported elements, the imported Alda score plays, for each part, the same pitches at the same times for the same lengths as the MusicXML prescribes, including chords, ties, accidentals, key signatures, transposition, multiple voices, backup and forward, percussion, repeats and alternate endings.",
  ["inputs"], "every combination of supported MusicXML elements",
  "Importer tests compare six hand-written pieces with hand-written events.",
  [IMP+"importer.go", IMP+"handlers.go", IMP+"optimizer.go", IMP+"util.go"],
  [("note translation", IMP+"handlers.go:translateNote"), ("duration translation", IMP+"util.go:idiomaticDuration"), ("repeat structure", IMP+"handlers.go:barlineHandler"), ("redundancy removal", IMP+"optimizer.go:optimize")])
# ---------------------------------------------------------------- processes and command line
p("P29", "Player processes are discovered, chosen and cleaned up safely",
  "Listing players returns exactly the players described by readable, complete, recent state records of this version, and a player offered for playback is always one that is ready and answers; unreachable ones are dropped and another is tried. "
  "Clean-up deletes the state records that have not been touched for more than two minutes and the renamed old Alda executables beside the program, and never any other file.",
  ["histories", "configurations", "fault_sequences"], "every population of state records (ready, busy, malformed, empty, truncated, stale, unreachable) and of files beside the executable",
  "One small test checks one renamed-file pattern.",
  [SYS+"process_management.go", SYS+"dirs.go", CMD+"root.go"],
  [("state reading", SYS+"process_management.go:ReadPlayerStates"), ("selection with ping", SYS+"process_management.go:FindAvailablePlayer"),
   ("stale clean-up", SYS+"process_management.go:CleanUpStaleStateFiles"), ("renamed executables", SYS+"dirs.go:IsRenamedExecutable")])
p("P30", "Each command acts on the right player with the right messages",
  "Play, export, stop and shutdown send to the selected player (by port, by id, or the documented default choice) exactly the messages that action calls for, in an order in which the player can act on them, and to no other player. "
  "When the source or the range is invalid, or no player can be found, the command exits with a failure status and an error message and sends no score. "
  "Export reports success only once the complete MIDI file that the player wrote is where the user asked for it; no temporary files remain.",
  ["inputs", "configurations"], "every score, source channel (file, argument, standard input), player population and option combination",
  "The command line has no tests.",
  [CMD+"play.go", CMD+"export.go", CMD+"stop.go", CMD+"shutdown.go", TX+"osc.go"],
  [("play command", CMD+"play.go"), ("export command", CMD+"export.go"), ("stop/shutdown", CMD+"stop.go")])
p("P31", "Commands report failure honestly and never destroy the user's files",
  "Parse, format and import give the same result whether the input comes from a file, an argument or standard input, succeed with the documented output exactly on valid input, and otherwise exit with a failure status and a message on standard error. "
  "Overwriting a file with its formatted version, or with an imported score, either leaves the complete new contents in it or leaves it untouched; no other file changes.",
  ["inputs", "fault_sequences", "configurations"], "every input text, valid or not, and every option combination",
  "The command line has no tests.",
  [CMD+"parse.go", CMD+"format.go", CMD+"import.go", "client/main.go", "client/help/errors.go"],
  [("format overwrite", CMD+"format.go"), ("parse command", CMD+"parse.go"), ("import command", CMD+"import.go"), ("exit status", "client/main.go")])
p("P32", "Telemetry is sent only with consent and carries only what is announced",
  "Once the user has disabled telemetry, by command or by environment variable, no command sends any usage report until the user enables it again, also when commands run at the same time or the record of the choice can't be read. "
  "A report that is sent contains only operating system, architecture, version and the command name, never arguments, file names or score contents.",
  ["histories", "configurations"], "every sequence of commands, enables and disables, and environment settings",
  "No tests.",
  [CMD+"telemetry.go", CMD+"root.go"],
  [("consent check", CMD+"root.go:sendTelemetry"), ("consent record", CMD+"telemetry.go:readTelemetryStatus"), ("payload", CMD+"telemetry.go:sendTelemetryRequest")])
p("P33", "Interactive client commands do what they say to the session and files",
  "In the interactive prompt, saving a score and loading it back (in the same or a fresh session) reproduces the same score, starting a new score empties the session, and the displayed text, parts, markers and events are those of the session's current score. "
  "A failing command reports an error, leaves the files and the choice of the file that :save and :load refer to untouched and keeps the prompt usable, also when the server fails, answers too late or ends. A message given on the command line is answered as the server answers it, and the command fails exactly if that says so.",
  ["histories", "inputs"], "every sequence of prompt commands and Alda inputs",
  "The client has no tests.",
  [REPL+"client.go", REPL+"server.go"],
  [("command table", REPL+"client.go:replCommands"), ("prompt loop", REPL+"client.go:RunClient")])
p("P34", "Every build of Alda gives the same result",
  "For every source text the builds for a browser (WebAssembly) and for 32-bit processors come to the result of the native program: the same score, syntax tree and events, or the same error. "
  "In a browser the promise for a text's messages resolves with exactly the messages that tell a player to load that score, without playing it, or is rejected with an error that says why; calls don't affect each other, and the module remains usable whatever it is given.",
  ["inputs", "histories", "configurations"], "every source text and every sequence of calls, on every platform",
  "The tests run on one platform only and the browser entry point has none.",
  ["client/wasm/main.go", "client/parser/", "client/model/", "client/transmitter/osc.go"],
  [("browser entry point", "client/wasm/main.go:main"), ("promise", "client/wasm/main.go:safePromiseFunction"), ("numbers", "client/parser/scanner.go")])
p("P35", "An update installs a whole release or leaves the programs as they were",
  "After an update that succeeds, every program of the chosen release for this platform is installed beside alda, executable and with exactly the bytes that were delivered, and nothing else has changed. "
  "In all other cases (refused or unanswered question, odd or incomplete answers, downloads that fail or break off, files that can't be written or replaced) the command ends with an error (without one if refused), and all installed programs are as before; "
  "ended at any moment, it leaves each program complete, old or new. Nothing is fetched that was not agreed to.",
  ["inputs", "crash_points", "fault_sequences"], "every answer of the release server, delivery, fault and moment of termination",
  "The tests cannot use the network and there are none.",
  [CMD+"update.go", "client/text/interaction.go", "client/system/dirs.go"],
  [("download", CMD+"update.go:downloadAssets"), ("installation", CMD+"update.go:downloadAndInstallAssets"), ("release description", CMD+"update.go:versionAssets"), ("question", "client/text/interaction.go:PromptForConfirmation")])
p("P36", "A REPL server is announced while it runs, and only then",
  "While an interactive server runs, with or without a prompt, it is listed with the port on which it answers and its process, however long it runs and whatever other servers do; a file in the directory in which it was started names its port, until another server is started there. "
  "A server whose port is taken reports so and changes nothing. A server that is quit, interrupted or terminated ends; its record and its own port file are gone then, and those of others remain.",
  ["histories", "crash_points"], "every history of servers that are started and ended in any way, in any directories",
  "The tests start no servers.",
  [REPL+"server.go", CMD+"repl.go", CMD+"ps.go", SYS+"process_management.go"],
  [("announcement", REPL+"server.go:RunServer"), ("clean-up", REPL+"server.go:Close"), ("end of the command", CMD+"repl.go:replCmd"), ("listing", SYS+"process_management.go:ReadREPLServerStates")])
p("P37", "As many player processes are started as are missing, and no more",
  "A command other than ps, shutdown and doctor starts as many players as are missing to have three that are ready or starting by their records, and no more, whatever else it does, also when it fails or shows help; these three start none beyond what they test. An interactive server keeps doing so while it runs. "
  "If players can't be started (ALDA_DISABLE_SPAWNING=yes, no alda-player, one that doesn't tell its version), none are, and the command otherwise does the same; one of another version is used, with a warning. "
  "A command that needs a player waits for one that is starting, and uses exactly one.",
  ["histories", "configurations", "schedules"], "every population of players, every installed player and every history of commands",
  "The tests start no players.",
  [SYS+"process_management.go", CMD+"root.go", REPL+"player_management.go"],
  [("pool", SYS+"process_management.go:FillPlayerPool"), ("installed player", SYS+"process_management.go:AldaPlayerPath"), ("which commands", CMD+"root.go:fillPlayerPool"), ("server", REPL+"player_management.go:managePlayers")])
# ---------------------------------------------------------------- not applicable here
p("P40", "The player performs every scheduled note at its time",
  "A player process that receives note, tempo and patch messages performs exactly those notes at the scheduled times on the right instruments, also when messages arrive while it is playing.",
  ["schedules", "histories"], "every sequence and timing of messages to a player",
  "Player tests cannot enumerate message arrival schedules.",
  ["player/src/main/kotlin/io/alda/player/Player.kt", "player/src/main/kotlin/io/alda/player/MidiEngine.kt"],
  [("player queues", "player/src/main/kotlin/io/alda/player/Player.kt"), ("MIDI engine", "player/src/main/kotlin/io/alda/player/MidiEngine.kt")])
p("P41", "A player announces its state truthfully and expires when idle",
  "A player process keeps its state record up to date (ready, active, port, expiry), removes it on exit, and shuts itself down only when idle past its expiry or told to.",
  ["histories", "crash_points"], "every sequence of player activity, shutdown and crash",
  "Wall-clock behaviour of a separate process.",
  ["player/src/main/kotlin/io/alda/player/StateManager.kt", "player/src/main/kotlin/io/alda/player/Main.kt"],
  [("state file upkeep", "player/src/main/kotlin/io/alda/player/StateManager.kt")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
