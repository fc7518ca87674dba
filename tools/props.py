# Source of /verif/properties.jsonl and of the per-property part of /verif/MANIFEST.json.
# (id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)], observe_at, hook)
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=observe, hook_needed=hook)))

VIEW = "guarded re-export of private modules (cfg rustbit_verif)"

p("C01", "No byte string makes bencode decoding fail other than with an error",
  "Decoding any byte string, however long, truncated, malformed or deeply nested, ends with a value or an error. It never panics, overflows the stack, loops, or takes memory far beyond the size of the input.",
  ["inputs"], "all byte strings: every string over the bencode alphabet up to a length, plus truncations, mutations, deep nestings and oversized length prefixes",
  "Decoder tests feed about twenty well-formed strings; every peer and tracker byte reaches the decoder.",
  ["src/bencode/decode.rs"], [("bounds, terminator and depth checks while parsing", "bencode/decode.rs")], ["decoder result"], VIEW)
p("C02", "Bencode decoding is exact",
  "A valid bencoded document decodes to exactly the value it denotes: integers (negative ones too), byte strings, lists in order, dictionaries with every key. The decoder also reports exactly how many bytes the value took, so that what follows it can be found; malformed documents are refused rather than guessed at.",
  ["inputs"], "all documents built from a value grammar up to a size, each with and without trailing bytes, and all short strings over the alphabet compared with a reference decoder",
  "Tests decode a handful of fixed documents; exactness is a statement about every document.",
  ["src/bencode/decode.rs", "src/bencode/metainfo.rs"], [("recursive descent with a byte cursor", "bencode/decode.rs")], ["decoder result and consumed length"], VIEW)
p("C03", "Bencode encoding is canonical and reversible",
  "Encoding a value and decoding the result gives the value back. The encoding is the canonical one: keys sorted as raw bytes, lengths counted in bytes, no leading zeros, and the same value always gives the same bytes.",
  ["inputs"], "all values of a grammar up to a size, including non-ASCII text and map iteration orders",
  "Encode tests use one or two ASCII entries per type.",
  ["src/bencode/encode.rs"], [("sorted dictionary entries, byte lengths", "bencode/encode.rs")], ["encoded bytes"], VIEW)
p("C04", "Torrent metadata is read faithfully",
  "For any valid metadata dictionary the client reports exactly its name, piece length, piece hashes, file list and sizes, for single-file and multi-file torrents alike. Metadata saved to the local cache reads back with the same facts, and re-encoding metadata that has only standard fields gives its original bytes.",
  ["inputs"], "all combinations of layout, sizes, names, paths, piece lengths and extra keys of a menu",
  "Two tests encode one literal each; none reads metadata from bytes.",
  ["src/torrent/info.rs", "src/torrent/file.rs"], [("field extraction and JSON cache", "torrent/info.rs")], ["reported facts"], VIEW)
p("C05", "Unusable metadata is refused",
  "Metadata with missing or mistyped fields, malformed file entries, a piece length of zero, sizes that overflow, or piece hashes that do not cover exactly the announced sizes is refused with an error. Metadata that is accepted can be used without crashing: sizes add up and every piece has its hash.",
  ["inputs"], "every field replaced by every hostile value of a menu, singly and in combination",
  "No test feeds bad metadata.",
  ["src/torrent/info.rs", "src/torrent/file.rs"], [("validation after parsing", "torrent/info.rs")], ["accept/refuse and usability"], VIEW)
p("C06", "Only metadata with the requested info hash is accepted from a peer",
  "When metadata is fetched from a peer, it is accepted only if its SHA-1 is the info hash that was asked for. Metadata that is altered, reordered, truncated, padded or another torrent's is refused, whatever else the peer does.",
  ["inputs", "histories", "fault_sequences"], "all single alterations of the served metadata and all bounded histories of a hostile peer",
  "No test fetches metadata from a peer that lies.",
  ["src/peer/manager.rs", "src/peer/download/info.rs"], [("hash comparison before parsing", "peer/manager.rs")], ["result of fetching metadata"], VIEW)
p("C07", "Only pieces with the right hash are accepted from a peer",
  "A piece download yields data only if its SHA-1 is the hash the metadata lists for exactly that piece. Whatever bytes, order or number of messages the peer sends, anything else is a failure.",
  ["inputs", "histories", "fault_sequences"], "all single alterations of the served blocks and all bounded histories of a hostile peer, for first, middle and last pieces",
  "One test downloads one block without verifying it.",
  ["src/peer/manager.rs", "src/torrent/info.rs", "src/peer/download/mod.rs"], [("piece verification", "peer/manager.rs")], ["result of downloading a piece"], VIEW)
p("C08", "A correct peer always yields the data",
  "Metadata and any piece can be fetched from a peer that follows the protocol, supports metadata exchange and answers within half a second. This holds however TCP splits or delays its bytes and whatever legal messages (keep-alives, have, bitfield, extension messages, repeated unchokes) it puts between its answers, and when reads and writes do less than they were asked to or are interrupted by a signal.",
  ["inputs", "schedules", "histories"], "every split point of the peer's byte stream and every bounded choice of legal interleavings, delays and sizes",
  "Tests read from an in-memory buffer holding complete frames; splitting, delays and other messages never occur.",
  ["src/peer/stream.rs", "src/peer/manager.rs", "src/peer/download/mod.rs", "src/peer/buffer.rs"], [("frame reading", "peer/stream.rs"), ("idle counting", "peer/download/mod.rs")], ["result of fetching from a correct peer"], VIEW)
p("C09", "The client's requests follow the protocol",
  "To a correct peer the client sends a well-formed byte stream: handshake, then interested and its extension handshake, and it requests blocks only after having been unchoked, and none after it has read that it is choked again. The block requests for a piece are at most 16 KiB each, stay within the piece and the torrent, and cover the piece exactly once; metadata requests carry the peer's own extension id and each metadata block's index once.",
  ["inputs", "histories"], "all torrent sizes and piece lengths of a boundary menu, all piece indexes, all legal peer histories up to a bound",
  "Tests check the bytes of one request of each kind.",
  ["src/peer/download/block.rs", "src/peer/download/info.rs", "src/peer/buffer.rs", "src/messages"], [("request generation", "peer/download")], ["bytes received by the peer"], VIEW)
p("C10", "No peer can crash or hang the client",
  "Whatever a peer sends, and wherever it stops, stalls, closes or resets the connection, a metadata fetch or piece download from it ends in bounded time with data or an error. It never panics, and never takes memory far beyond what it is downloading.",
  ["inputs", "histories", "fault_sequences"], "all bounded sequences of hostile frames, every truncation point, every stall or reset point, endless chatter",
  "Tests use cooperative in-memory peers only.",
  ["src/peer/stream.rs", "src/messages", "src/peer/manager.rs", "src/peer/download/mod.rs"], [("length checks, deadlines and caps", "peer/stream.rs, messages/mod.rs")], ["termination of the fetch"], VIEW)
p("C11", "A connection starts with a matching handshake",
  "The first thing sent on a peer connection is the 68-byte handshake with the torrent's info hash, the extension bit and a 20-character peer id. If the first message of the peer's answer is not a handshake for the same info hash, nothing is requested from it and the fetch fails.",
  ["inputs", "histories"], "all single-byte alterations of the peer's handshake, all bounded histories that lack it or bring it late",
  "One test checks the byte layout of a handshake.",
  ["src/peer/manager.rs", "src/messages/handshake.rs"], [("handshake exchange and hash comparison", "peer/manager.rs")], ["bytes received by the peer, result"], VIEW)
p("C12", "Wire messages are encoded and decoded exactly",
  "Every message the client builds has the exact BitTorrent wire form for all field values. Every message it receives is recognised by its id with exactly the carried fields, and bodies too short for their type are refused without a crash.",
  ["inputs"], "all ids with all short bodies and extension dictionaries of a menu; all requests of a boundary menu of 32-bit values",
  "Tests cover one value per message type.",
  ["src/messages"], [("message encoding and decoding", "messages/mod.rs")], ["bytes and decoded fields"], VIEW)
p("C13", "Frames are recovered whatever the TCP segmentation",
  "Reading a peer's byte stream yields exactly the sequence of messages in it, in order, however the stream is split into segments and delayed. Keep-alives yield no message, and a stream that ends inside a message yields no part of it. A message that takes more than ten seconds to arrive or is larger than 2 MiB may be given up, but then nothing is made up in its place: what was read stays a beginning of what was sent.",
  ["inputs", "schedules"], "all sequences of frames from a menu up to a length, with every split position and pairs of split positions",
  "Stream tests hold one complete frame in a buffer.",
  ["src/peer/stream.rs"], [("frame reading", "peer/stream.rs")], ["messages read"], VIEW)
p("C14", "No piece is ever lost by the scheduler",
  "Once metadata and a peer are known, every piece of the torrent is requested, and a piece whose download failed is requested again until it succeeds. With peers of which one eventually serves each piece, the download finishes under every order of events, and no piece that was stored is requested again.",
  ["schedules", "histories", "fault_sequences"], "all delivery orders of messages between the torrent, its connection workers and writer, and all bounded patterns of piece failures",
  "No test runs the torrent coordinator.",
  ["src/actors/torrent.rs", "src/peer/piece_pool.rs"], [("piece pool and reinsertion on failure", "actors/torrent.rs")], ["piece requests"], VIEW)
p("C15", "A finished download equals the torrent's content",
  "For a torrent of at least one byte: when every piece has been fetched and stored, the files on disk are exactly the torrent's files, byte for byte, including empty ones. This holds for every file layout, piece length, order of piece completion and interleaving of workers.",
  ["schedules", "inputs"], "all layouts of a menu times all bounded interleavings of the whole client against correct peers",
  "No test downloads anything end to end; the README says integration tests are missing.",
  ["src/actors", "src/torrent/writer.rs", "src/peer"], [("the whole pipeline", "actors/torrent.rs")], ["files on disk"], VIEW)
p("C16", "Each piece is written to exactly its place",
  "Storing a piece writes each of its bytes to the file and offset that the torrent's layout assigns to it and changes nothing else. This holds for all file sizes, including empty and tiny files and pieces that span many files, and for any order of pieces.",
  ["inputs", "histories"], "all layouts of up to several files with sizes around the piece boundaries, all piece orders up to a bound, large offsets",
  "Seven tests check single layouts; boundaries, empty files and orders are not covered.",
  ["src/torrent/writer.rs"], [("piece to file mapping", "torrent/writer.rs")], ["files on disk"], VIEW)
p("C17", "Nothing is written outside the working directory",
  "Whatever file names and paths a torrent's metadata carries, the client creates, changes and deletes nothing outside its working directory. Metadata with such paths may be refused or its paths neutralised.",
  ["inputs"], "all paths of up to three components from a hostile menu, as file name and as file path, plus info hashes used as cache names",
  "No test uses a hostile path.",
  ["src/torrent/info.rs", "src/torrent/file.rs", "src/torrent/writer.rs", "src/actors/torrent.rs"], [("path check at metadata acceptance", "torrent/file.rs")], ["file system operations"], VIEW)
p("C18", "Disk faults lose no piece",
  "If creating, opening or writing a file fails or writes only part of the data, the client does not crash and the piece is not taken as stored: storing reports the failure and the piece is fetched again. Once the fault is gone the files end up correct.",
  ["fault_sequences"], "every single disk operation failing with every error of a menu or being cut short, and pairs of faults",
  "No test injects a disk fault.",
  ["src/torrent/writer.rs", "src/actors/writer.rs"], [("error propagation and piece reinsertion", "actors/writer.rs")], ["result of storing, piece requests, files"], VIEW)
p("C19", "A damaged metadata cache never hurts",
  "Whatever a crash or fault left in the metadata cache file (nothing, any prefix, blocks of zeros, text that is no metadata), a later run neither crashes nor uses wrong metadata: it fetches the metadata again and repairs the file. An intact cache file is used without asking any peer.",
  ["crash_points", "fault_sequences", "inputs"], "every crash point and torn length of saving the cache, every prefix, zero-filled heads, tails and holes, a menu of garbage, unreadable or unwritable locations",
  "No test touches the cache.",
  ["src/torrent/info.rs", "src/actors/torrent.rs"], [("cache load with fallback", "torrent/info.rs")], ["metadata used, cache file"], VIEW)
p("C20", "Magnet links are read exactly",
  "A magnet link with a btih topic yields exactly its 20-byte info hash, in 40-digit hex (any case) or 32-character base32, wherever the topic stands among the other parameters. Every other string is refused with an error and never crashes the client.",
  ["inputs"], "all combinations of hash form, position and neighbours of a menu, all truncations and single-byte changes, all short token strings",
  "Three tests parse three links.",
  ["src/torrent/magnet.rs"], [("topic parsing", "torrent/magnet.rs")], ["info hash"], VIEW)
p("C21", "Adding a magnet registers the torrent with every tracker",
  "Posting a magnet link answers 200 and registers exactly that torrent, once, with every configured tracker, no matter how many torrents are added at once or how busy the trackers are. Posting anything else answers with a client error, registers nothing, and the server keeps serving.",
  ["inputs", "schedules", "histories"], "all bounded sequences of good and bad posts under all bounded delivery orders",
  "No test sends a request to the API.",
  ["src/main.rs", "src/actors/trackers_interface.rs"], [("HTTP handler and fan-out", "main.rs")], ["HTTP status, tracker registrations"], VIEW)
p("C22", "UDP tracker exchange is correct and robust",
  "Asking a UDP tracker sends a well-formed connect request, then an announce that carries the received connection id, the info hash and a 20-character peer id, and yields exactly the peers (600 at most fit a reply here) of a matching reply with at least one peer; a request that gets no answer is sent again. Lost, late, repeated, short, mismatched or error replies never crash it, never hang it, and never yield peers that no matching announce reply contained.",
  ["inputs", "fault_sequences", "histories"], "all bounded patterns of lost, late, repeated, mutated and reordered datagrams; all reply lengths up to a bound",
  "The UDP exchange has no test.",
  ["src/tracker/udp_tracker.rs"], [("request/response exchange with timeouts", "tracker/udp_tracker.rs")], ["datagrams sent, peers returned"], VIEW)
p("C23", "HTTP tracker exchange is correct and robust",
  "Asking an HTTP tracker sends a GET to the tracker's address that keeps its path and query and carries the percent-encoded info hash and a 20-character peer id, and yields exactly the peers of the reply's compact list, in whatever framing or compression the client offers to take. Error statuses, malformed bodies, endless or cut answers and refused connections give an error, without a crash or a hang.",
  ["inputs", "fault_sequences"], "all info hash bytes, tracker URLs and reply bodies of a menu, every truncation of a reply",
  "One test fetches one reply.",
  ["src/tracker/tcp_tracker.rs", "src/tracker/mod.rs"], [("URL construction and reply parsing", "tracker/tcp_tracker.rs")], ["HTTP request, peers returned"], VIEW)
p("C24", "Compact peer lists are decoded exactly",
  "A compact peer list of n whole entries gives exactly n endpoints, in order, each with the exact address and port; an incomplete last entry is ignored. No input crashes it.",
  ["inputs"], "all address bytes and all ports, all list lengths up to a bound with all remainders",
  "One test decodes one entry.",
  ["src/tracker/peer_endpoint.rs"], [("6-byte chunks", "tracker/peer_endpoint.rs")], ["endpoints"], VIEW)
p("C25", "Tracker results reach the right torrent",
  "Every peer in a tracker's answer that accepts a connection when it is tried is handed exactly once to the torrent it was asked for, and to no other; unreachable peers are not handed on. This holds however many peers and torrents there are. A tracker that fails or answers rubbish affects neither other trackers nor other torrents.",
  ["schedules", "histories", "fault_sequences"], "all bounded interleavings of registrations, tracker answers, failures and reachability of several torrents",
  "No test runs the tracker coordinator.",
  ["src/actors/tracker.rs", "src/tracker"], [("per-registration task", "actors/tracker.rs")], ["peers handed to each torrent"], VIEW)
p("C26", "Misbehaving peers are avoided",
  "When a piece is requested after a failed download, it is asked of a peer with fewer than two failures if one is known, otherwise of one with fewer than four if one is known. Being announced again does not clear a peer's failures. Bad peers, however many, cannot keep the download from finishing while one good peer is known.",
  ["schedules", "histories", "fault_sequences"], "all bounded patterns of good and bad peers, failure histories and random choices",
  "No test exercises peer choice.",
  ["src/actors/torrent.rs"], [("failure counts in peer choice", "actors/torrent.rs")], ["endpoint of each piece request"], VIEW)
p("C27", "The piece pool hands out each piece once",
  "A new pool of n pieces hands out 0..n-1, each exactly once, then nothing; a piece put back is handed out again exactly once. This holds for every sequence of operations and for concurrent users of one pool.",
  ["histories", "schedules"], "all operation sequences up to a depth against a reference queue, through shared handles",
  "Three tests do one or two operations.",
  ["src/peer/piece_pool.rs"], [("shared queue", "peer/piece_pool.rs")], ["pieces handed out"], VIEW)
p("C28", "Only verified content reaches the disk",
  "At every moment, including while hostile peers are being used and at any crash, each byte in the torrent's files within a stored piece is the torrent's true content; bytes that were never stored are absent or zero. No unverified data is ever written.",
  ["schedules", "fault_sequences", "crash_points"], "all bounded interleavings with hostile and correct peers, checked after every disk operation",
  "No test looks at the disk while peers misbehave.",
  ["src/actors/connection.rs", "src/actors/torrent.rs", "src/peer/manager.rs"], [("verification before handing on", "peer/manager.rs")], ["files on disk after every operation"], VIEW)
p("C29", "A restart after a crash completes the download",
  "After the process is killed at any point, starting the client again in the same directory with the same magnet and a correct peer ends with exactly the torrent's files. What the crash left behind never prevents or corrupts this.",
  ["crash_points", "schedules"], "every disk operation of a run as crash point with every torn length of a menu",
  "No test restarts anything.",
  ["src/actors/torrent.rs", "src/torrent/info.rs", "src/torrent/writer.rs"], [("positional writes over existing files, cache fallback", "torrent/writer.rs")], ["files on disk after the second run"], VIEW)
p("C30", "Torrents downloaded together do not mix",
  "Several torrents with different file names downloaded at the same time end with exactly their own content each. Peers, metadata, pieces and files of one never turn up in another, under every interleaving.",
  ["schedules", "histories"], "all bounded interleavings of two torrents with common and separate peers",
  "No test runs two torrents.",
  ["src/actors", "src/main.rs"], [("one coordinator per torrent", "actors/torrent.rs")], ["files on disk, handshakes"], VIEW)
p("C31", "Adding a torrent again does no harm",
  "When the same magnet is added more than once, at the same time, during the download or after it, every addition's download finishes and the files end up exactly the torrent's. At no moment does a further addition take back, change or cut off a byte that was already stored, and the metadata cache they share is never read as anything but the torrent's metadata.",
  ["schedules", "histories", "fault_sequences"], "all bounded interleavings of two and three additions of one torrent, their writers and their use of the metadata cache",
  "No test adds a torrent twice.",
  ["src/actors/torrent.rs", "src/torrent/writer.rs", "src/torrent/info.rs"], [("writing over what is there", "torrent/writer.rs"), ("metadata cache", "actors/torrent.rs")], ["files on disk after every operation", "metadata read from the cache"], VIEW)
p("C32", "From the magnet to the files",
  "After POST /add/magnet with a well-formed magnet link, the torrent's files end up in the working directory, byte for byte, whenever at least one configured tracker answers and lists a peer that serves the torrent correctly. Other trackers that fail, lists of unreachable or misbehaving peers, lost datagrams that the protocol's retries make up for, and further torrents (with other file names) added before, meanwhile or after do not change that, and a peer is only ever used for a torrent it was announced for. Once everything is done, the client comes to rest.",
  ["schedules", "histories", "fault_sequences"], "all bounded orders of posts, tracker datagrams, timers, worker results and random choices of the whole client, patterns of tracker and peer conduct, layouts of several torrents",
  "No test runs the client as a whole.",
  ["src/main.rs", "src/actors", "src/tracker", "src/peer", "src/torrent"], [("wiring of service, trackers, torrents, sessions and writer", "main.rs")], ["files on disk, HTTP status, endpoint and info hash of each connection"], VIEW)
p("C33", "Nothing is kept once it is over",
  "When a peer session, an exchange with a tracker or the storing of a piece has ended, well or badly, the connections, sockets and files it opened are closed and the memory it took is free again. When nothing is left to do for a torrent (it is finished, and its trackers have answered or given up), the workers made for it have ended too. Adding torrents one after another, or dealing with any number of bad peers and trackers, therefore does not use up the machine's sockets, threads or memory.",
  ["histories", "schedules", "fault_sequences"], "all bounded conduct of peers and trackers and all single disk faults, each repeated in one process; orders of the whole client's events",
  "No test looks at what is left when something has ended, least of all badly.",
  ["src/actors", "src/peer", "src/tracker", "src/torrent/writer.rs", "src/main.rs"], [("stopping of workers when addresses are dropped", "actors"), ("connections closed by scope", "peer/stream.rs")], ["open files, sockets and threads of the process, live memory, waiting workers"], VIEW)
