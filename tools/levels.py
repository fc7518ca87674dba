# Per property: (level, technique, level note)
INP = 'bounded-exhaustive input enumeration on the real code'
L = {
 'C01': ('exploration', INP, 'Every string over the bencode alphabet up to the stated length plus complete mutation, truncation, nesting and length-prefix families, each run on the real decoder in a worker with a 2 MiB stack and a memory limit; longer irregular strings are not covered.'),
 'C02': ('exploration', INP + ' against a reference decoder', 'Complete value grammar up to a size and complete short strings, compared with an independent decoder written for the check; assumes the reference is right.'),
 'C03': ('exploration', INP + ' with round trip', 'Complete value grammar up to a size; canonical bytes are computed independently.'),
 'C04': ('exploration', INP, 'Complete product of layouts, sizes, names, piece lengths and extra keys of a menu.'),
 'C05': ('exploration', INP + ' (field mutation products)', 'Every field times every hostile value, singly and in pairs (triples in thorough).'),
 'C06': ('exploration', 'stateless model checking of the real code against an in-process peer model under a simulated socket layer', 'All single alterations and all bounded histories of the peer model; the client code is real, sockets and clock are simulated and cross-checked with real loopback runs.'),
 'C07': ('exploration', 'stateless model checking of the real code against an in-process peer model under a simulated socket layer', 'As C06 for pieces.'),
 'C08': ('exploration', 'stateless model checking: all splits and deviation-bounded legal peer behaviours on the real code', 'All single split offsets and all peer behaviours within the deviation bound; assumes the simulated TCP layer, which real loopback runs validate.'),
 'C09': ('exploration', 'stateless model checking with a protocol monitor at the peer', 'Every byte the client sends in all explored executions is parsed by an independent monitor.'),
 'C10': ('exploration', 'exhaustive hostile-peer histories and fault points on the real code with virtual time', 'All hostile frame sequences of the menu up to the depth, all truncation and stall points; crash, hang (virtual time) and memory limits are judged by a separate supervising process.'),
 'C11': ('exploration', 'exhaustive handshake alterations and histories on the real code', 'All single-byte alterations and all histories of the menu.'),
 'C12': ('exploration', INP, 'All ids with all short bodies of five fill patterns, complete products of extension keys and boundary values.'),
 'C13': ('exploration', 'exhaustive segmentation of frame sequences on the real code under a simulated socket layer', 'All frame sequences of the menu up to the length with all single and paired split positions.'),
 'C20': ('exploration', INP + ' against a reference parser', 'Complete products of forms and positions, all single-byte changes and truncations, all token strings up to a length.'),
 'C22': ('exploration', 'stateless model checking: deviation-bounded datagram loss, delay, repetition and mutation against the real UDP exchange, virtual time', 'Every choice of one of 18 tracker reactions per datagram within the deviation bound, all reply lengths up to 3,620 bytes; datagrams travel over real loopback sockets, their times are simulated.'),
 'C23': ('exploration', 'bounded-exhaustive reply and fault enumeration against the real HTTP exchange under a simulated socket layer', 'All URLs, hash octets, truncations, splits, framings and compressions of the menus; redirects are followed by the HTTP library and only bounded, not judged; lists up to 600 peers.'),
 'C24': ('exploration', INP, 'All values of each byte and each port, all list lengths to a bound.'),
 'C27': ('model_checking', 'explicit-state exploration of all operation sequences, each replayed on the real pool', 'All operation sequences up to the depth on the real pool compared with a reference queue after every step; sequential handles (its lock makes operations atomic).'),
 'C14': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk', 'All orders of events and failure patterns within the deviation bound around three default orders; a sync worker runs its handler in one step (workers share nothing).'),
 'C15': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk', 'Layouts of the menus, orders of events within the deviation bound; the files are compared byte for byte at the end of every execution.'),
 'C16': ('exploration', 'exhaustive enumeration of layouts and piece orders on the real writer and real files', 'Complete products of the length and piece length menus, all permutations of few pieces, else four orders; the whole scratch directory is compared after every piece.'),
 'C17': ('exploration', 'exhaustive enumeration of hostile paths on the real code with every file system call checked', 'All paths of up to three (thorough: four) components of the menu; calls that would leave the directory are recorded and refused, never executed.'),
 'C18': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk; every disk operation may fail or be cut short', 'All fault placements within the bound (two quick, three thorough) on downloads of three layouts.'),
 'C19': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk; all crash points, torn lengths and damage patterns of the cache file', 'Damage that leaves valid metadata of another content is not considered (nothing could detect it but the hash of the original bytes).'),
 'C21': ('model_checking', 'stateless model checking: real HTTP service and tracker actors, all post sequences of a menu with bounded choices of pauses and tracker conduct', 'In the explored runs requests are handed to the service in process and trackers are simulated datagram peers; a menu of runs of the whole real program over loopback binds this to its server and main function.'),
 'C25': ('model_checking', 'stateless model checking: real tracker and torrent actors, all orders of registrations and tracker reactions within a deviation bound', 'Hand-over is observed as the connection a torrent makes to a peer it was given.'),
 'C26': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk', 'All patterns of failures and random choices within the bound; requests that follow a success (which stay with their peer) are not judged.'),
 'C28': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk; the disk is inspected before and after every disk operation', 'Hostility is one of seven ways to spoil an answer per request, within the deviation bound; session-level hostility is explored by C07 and C10.'),
 'C29': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk; every disk operation is a crash point with four torn lengths', 'The second run uses one of three default orders and a peer that fails once; crash means that every earlier operation is on the disk in order (no reordering of writes by the file system).'),
 'C30': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk', 'Two and three torrents with different file names; orders of events within the deviation bound.'),
 'C31': ('model_checking', 'stateless model checking: the real actors and actix runtime under a controlled scheduler (deviation-bounded orders of worker results, announcements and random choices), simulated peers, clock and disk; real threads switched at every file system call for writers and cache users that overlap', 'Two and three additions; orders of events and switches between threads within the bound.'),
 'C32': ('model_checking', 'stateless model checking of the whole client: the real HTTP service, actors, sessions, tracker exchange and writer under a controlled scheduler (deviation-bounded orders of posts, datagrams, timers, worker results and random choices), simulated trackers, peers, clock and disk', 'Orders within the deviation bound from three default orders; worker handlers take effect at one instant. A menu of runs of the whole real program over loopback binds the model to its threads, sockets and main function.'),
 'C33': ('exploration', 'stateless model checking: every bounded history of peer, tracker and disk conduct repeated three times in one process on the real code, comparing what the process holds in between; whole client under the controlled scheduler', 'Growth counts when it happens in the second and in the third repetition (the first may fill caches). Memory is what the allocator has given out; threads of SyncArbiter pools are seen in the simulated world as pools that still wait for work, and as threads in runs of the real program.'),
}
