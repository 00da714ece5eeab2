c("P21", "generated scores are turned into player messages, decoded by an independent OSC decoder and a model of channel state, and matched one to one with the notes of the score",
  "Includes scores of more than 15 instruments that share channels, scores sent twice, and scores sent in two pieces.",
  all="non-trivial: at least 3 notes", twice="non-trivial: at least 3 notes", slices="non-trivial: both pieces have notes")
c("P22", "generated scores and ranges (times, markers, malformed references): decoded messages versus the notes filtered and shifted by the oracle", "",
  window="non-trivial: the range cuts off some but not all notes, or the reference is malformed")
c("P23", "generated tempo changes: decoded tempo messages, as a function of time, versus the reference's tempo over time",
  "A local and a global change of tempo at the same moment are not judged, nor are tempo changes inside voices (the language does not say which voice leads).",
  map="non-trivial: at least 2 tempo changes")
c("P27", "generated valid scores, mutated scores (elements dropped, doubled, moved, renamed, given odd texts and attributes) and byte strings are imported several times: no crash or hang, same result, what is imported can be written, parsed and (valid ones) evaluated",
  "A score that is not valid MusicXML may be accepted or rejected; either is fine.",
  valid="non-trivial: more than 2 lines of Alda code", broken="non-trivial: accepted, or rejected because of an element", bytes="non-trivial: accepted, or rejected because of an element")
c("P28", "generated MusicXML scores, performed by a reference model of MusicXML, versus the notes of the imported score as alda evaluates it", 
  "Tolerance: 0.002 of a quarter note. See DESIGN.md for the combinations left out because of known findings.",
  all="non-trivial: at least 3 notes")
c("P24", "stateful generation: generated scores cut between events and sent piece by piece to a real server in a generated mix of evaluate and evaluate-and-play; the session's state is compared with the whole score evaluated at once, and what a stand-in player receives with the notes each input added",
  "Also histories that mix inputs with new-score, load, replay, export, stop and queries, against a model of the session. In split and history a group of voices counts as one event; in voices inputs end anywhere. In takeover players come, go and linger.",
  split="non-trivial: at least 3 inputs", history="non-trivial: at least 4 operations", voices="non-trivial: at least 3 inputs, which may end within voices (times are not compared then)", takeover="non-trivial: at least 2 players were shut down on the way", together="non-trivial: the clients took turns more often than there are clients")
c("P25", "stateful generation: histories of valid inputs with inputs that fail (syntax, evaluation, deep inside constructs) in between; the session's state before and after, and the rest of the history with and without the failing input, are compared",
  "", reject="non-trivial: an input was rejected, among at least 3 operations")
c("P26", "generated request sequences, streams cut into packets, malformed bytes and concurrent clients against a real server: one reply per request with the request's id and session and the right status; other clients keep being served",
  "Includes clients that send only half a message, close early, or never read (deaf).",
  requests="non-trivial: a request was answered with an error", stream="non-trivial: at least 2 requests, sent without waiting (all)", malformed="non-trivial: generated bytes follow the requests (all)", clients="non-trivial: at least 2 clients (all)", deaf="non-trivial: the client that doesn't read has more than its buffers hold waiting")
c("P29", "generated populations of state records (complete, incomplete, malformed, stale, of other versions; with files of others beside them), of old executables beside a copy of the program, and of live and dead players: what `alda ps` lists, which player `alda play` chooses, and which files are left, against a model",
  "Populations with an unreachable ready player take 20 s each and run in parallel.",
  records="non-trivial: some record describes a player and some other file does not", executables="non-trivial: there is an old executable and some other file", choice="non-trivial: 8 populations at once (all)")
c("P30", "generated play, export, stop and shutdown commands over players of all kinds: what each stand-in player receives, decoded independently, versus the oracle's notes of the score; exit status, messages and exported files (written slowly, late or never by the player) versus a model of the command",
  "Stop and shutdown only warn about a player that cannot be reached.",
  commands="non-trivial: at least 2 players", unreachable="non-trivial: 6 populations with unreachable players at once (all)")
c("P31", "generated texts (valid and not) given by file, argument and pipe, in every option order, with limits on what can be written: exit status, outputs and all files afterwards, versus the library on the same text",
  "Write faults are injected with a file size limit.",
  **{"parse": "non-trivial: more than 10 characters", "format": "non-trivial: more than 10 characters, and the file is to be overwritten or the text is valid", "import": "non-trivial: more than 10 characters", "misuse": "non-trivial: all"})
c("P32", "stateful generation: sequences of commands, consent changes, environment settings and damaged status files against a recording proxy that stands for the internet; concurrent commands racing with a change of consent",
  "The proxy decrypts what alda sends, so the complete request is judged.",
  history="non-trivial: some command is run that must not report", concurrent="non-trivial: all")
c("P33", "stateful generation: generated lines typed at a real client of a real server, against a model of the session, of the files and of what the player is sent; servers that end, and servers that answer too late",
  "Files with a voice group left open at the end are not loaded (what belongs to the group then depends on the next input).",
  talk="non-trivial: at least 5 lines, something was saved", gone="non-trivial: at least 3 lines after the end of the server", unanswered="non-trivial: 4 sessions at once (all)", script="non-trivial: at least 3 messages, and one that must fail")
c("P34", "generated texts and histories of calls (concurrent ones, wrong arguments, log levels) against the WebAssembly module in Node, and generated texts against the 32-bit program, compared with the native library on the same text",
  "Numbers of 9 digits and more are not judged on 32-bit processors.",
  page="non-trivial: some text gives notes", narrow="non-trivial: valid and more than 10 characters")
c("P35", "generated releases, answers of a stand-in for the release server (by a proxy), broken deliveries, files that can't be replaced, answers to the questions and moments of termination: which programs are there afterwards, versus a model of the update",
  "Removal of the renamed old programs is P29's. The few instructions between the two renames of an installation count as old (the old program is there under its other name).",
  update="non-trivial: something was fetched, or the program was ended on the way", doctor="non-trivial: the installation was agreed to")
c("P36", "stateful generation: histories of servers started (alone, with a prompt, on given and taken ports) and ended (typed, end of input, signals) in several directories; after every step what alda ps lists, which ports answer and which port files there are, versus a model; records aged while their servers run",
  "Not judged: what a server that was killed leaves behind, the exit status after a signal, two servers that draw the same ID (one in 17576).",
  lifecycle="non-trivial: a server was ended while another one was running", renewal="non-trivial: 4 servers or more at once (all)")
c("P37", "stateful generation: populations of records that change, installed players of all kinds (missing, broken, of another version) and commands of all kinds, with a recording stand-in for alda-player: how many players each command starts, versus a model; commands and servers that need the players just started",
  "Not judged: commands at the same time, help and misuse of ps, shutdown and doctor.",
  pool="non-trivial: some, but not all of the three players were missing", first="non-trivial: no player is ready, and some are active or starting", lost="non-trivial: a player that seems ready is dead; several at once (all)", kept="non-trivial: 3 servers or more at once (all)")
