"""Which rules decide which property."""

COMMON = [
    'the interpreter in /verif/modan models the Python subset and the library calls used by modbus_tk (struct, '
    'socket, select, threading, queue, logging, serial) as documented; anything else is an unknown value',
    'a violation is reported only on a partition without unknown conditions that has a concrete satisfying assignment',
]

PROPS = {}


def prop(pid, rules, technique, note, assumptions=()):
    PROPS[pid] = {'rules': rules, 'technique': technique, 'note': note, 'assumptions': list(assumptions)}


AI = 'abstract interpretation of the source (relational value/byte-field domain, loop summaries)'

prop('C01', [('slave', 'c01')], AI,
     'Every path of Slave.handle_request per function code, for PDUs of any length and content, any blocks, both signednesses.')
prop('C02', [('slave', 'c02')], AI,
     'Cell accesses of every path compared symbolically with the addressed range, for any number and size of blocks.')
prop('C03', [('slave', 'c03')], AI + '; effect analysis of cell accesses per table',
     'Every read, write and lookup of every path of request handling, per function code.')
prop('C04', [('slave', 'c04')], AI + '; effect analysis of refused and failed paths',
     'Every path that ends in an exception response or an exception: no cell write event is possible on it.')
prop('C05', [('slave', 'c05')], AI, 'Length and fields of every normal response compared with the request symbolically.')
prop('C06', [('slave', 'c06_slave'), ('master', 'c06_master')], AI,
     'Stored and sent values compared with the specified coding for every position, in the slave and in the master.')
prop('C07', [('slave', 'c07')], AI + '; bitwise comparison of the derived formula',
     'The stored form is derived from the source and compared with the formula on every combination of bit values per position.')
prop('C08', [('slave', 'c08')], AI + '; ordering analysis of cell versions',
     'Cell versions in the response of function 23 are those after the write; no write on refused paths.')
prop('C11', [('blocks', 'c11')], AI + '; inductive invariant over the block lists',
     'add_block on a slave with any number of disjoint blocks: acceptance implies disjointness, refusal implies a fault.')
prop('C12', [('blocks', 'c12')], AI, 'get_values/set_values for any address, size and blocks: cells, values, bounds, size.')
prop('C13', [('blocks', 'c13')], AI + '; composition of add/remove with later accesses',
     'Sequences add-then-access and remove-then-access on a slave with any blocks.')

prop('C09', [('bank', 'c09')], AI + '; composition of Databank.handle_request with a slave and failing hooks',
     'Every path of Databank.handle_request for every function code, empty PDUs, unbounded cells and hooks that return or raise.',
     ['hooks named on_error / on_exception do not raise themselves'])
prop('C10', [('bank', 'c10')], AI,
     'Dispatch over registries of 0 to 3 slaves with symbolic ids, every combination of refusing and failing slaves; effects of '
     'broadcasts on a slave with any blocks.')
prop('C14', [('bank', 'c14')], AI + '; composition of registry operations',
     'Every registry operation for any integer id on a registry of symbolic ids, followed by lookups; servers with and without databank.')

LOCKS = 'lockset and critical-section analysis on the paths of an abstract interpretation'
prop('C15', [('locks', 'c15')], LOCKS,
     'Every access to block lists, name map and cells on every path of every public slave operation; the lock must be one and the '
     'same object, made before, and not be released between first and last access.')
prop('C16', [('locks', 'c16')], LOCKS,
     'Every access to the map of slaves, the hook table and its lists, and the transaction id counter, on the operations of databank, '
     'servers sharing a databank, hooks and TCP queries.')
prop('C17', [('locks', 'c17')], 'lock-order graph and release analysis on the paths of an abstract interpretation',
     'Every lock taken, and every user hook run, on the paths of slave, databank, hook and master operations, with failing links and hooks.')
prop('C19', [('framing', 'c19')], AI, 'TcpQuery.build_request for any unit id and PDU, fresh and used queries, any value of the counter.')
prop('C20', [('framing', 'c20')], AI, 'TcpQuery.parse_response and parse_request for byte strings of any length and content.')
prop('C21', [('framing', 'c21')], AI + '; derived form of the CRC step compared with the polynomial',
     'RtuQuery in both directions for any bytes; the CRC function on symbolic bytes and its loop step by induction.')
prop('C22', [('framing', 'c22')], AI + '; composition of Databank.handle_request with both transports',
     'Every answer of the dispatch for requests of any length and content, compared with the frame for that request.')
prop('C18', [('master', 'c18')], LOCKS + '; event ordering on every path of execute',
     'Every send and read on every path of execute of the three masters, with working and failing links.')
prop('C24', [('master', 'c24')], AI + '; loop progress analysis',
     'The receiving function of the three masters for any stream of bytes, any split into reads, closed links and links that fall '
     'silent or are reset (errors of recv) after any number of bytes.',
     ['the time limit of the port or socket is positive'])
prop('C28', [('master', 'c28')], AI,
     'The bytes sent by execute of the three masters for every supported function, any integer arguments and lists of any length.')
prop('C29', [('master', 'c29')], AI,
     'The result of execute for responses of any length and content, every supported function, default and given formats, raw.',
     ['function 20: sub-responses of the requested lengths'])
prop('C30', [('master', 'c30')], AI + '; effect analysis of refused calls',
     'Every path of execute for unit ids outside 0-255, unsupported functions, missing or negative masks, malformed file records.')

prop('C37', [('serial', 'c37')], 'symbolic evaluation of the time-out formulas over the baud rate and the multipliers',
     'Constructors and set_timeout of RtuMaster and RtuServer on every path; the formulas found in the source are compared with the '
     'specified ones on both sides of every baud rate limit and for several multipliers.')
prop('C27', [('link', 'c27'), ('address', 'c27_connect')], AI + '; composition of open, close and execute',
     'Sequences of open, close, execute and set_timeout (zero and missing limits too) on the three masters, with failing connects, failing flushes, failing sends '
     'and ports closed by others.',
     ['closing a socket or port does not fail'])

prop('C23', [('servers', 'c23')], AI + '; scripted links: every split of the stream into reads, every end of it',
     'The loop of the TCP server on connections that give one, three or all bytes at a time and are closed or silent after any '
     'prefix of three requests of several announced lengths; two connections at once; any announced length for complete reads.',
     ['a request announces a length of at least 1'])
prop('C25', [('servers', 'c25')], AI + '; fault injection into every input, output, hook and handler of the server loop',
     'One pass of the loop of TcpServer and RtuServer with failing accepts, reads, writes, handlers and hooks and with clients that close '
     'or fall silent at any point, composed with the passes that follow: listening, serving the other connections, next requests.',
     ['select itself does not fail'])
prop('C26', [('servers', 'c26'), ('address', 'c26_listen')], AI + '; typestate of sockets, ports and threads',
     'The function of the server thread with failures in starting, running, hooks and input or output; restart and stop after it; '
     'stop with the thread ending at every point of it.',
     ['closing a socket or port does not fail'])
prop('C31', [('hooks', 'c31')], AI + '; comparison with a reference model on every history up to a depth',
     'Every history of three (thorough: four) install and uninstall operations on two names, with every name called in every mode of the '
     'installed functions after each step; functions that install, uninstall and fire while they run.',
     ['a function is installed once under a name'])
prop('C32', [('hooks', 'c32')], AI + '; must-fire analysis of the documented hook points',
     'The paths of open, close and execute of the masters, of request handling of slaves and databank and of the server loops: every '
     'documented point is fired once with its arguments, in place, and the value it returns is what is used afterwards; also for '
     'requests that get no answer.')
prop('C33', [('simulator', 'c33')], AI + '; scripted command queue',
     'The command loop of the simulator on every command with any numbers, missing, malformed and extra arguments, failing operations, '
     'unknown lines, added commands with any result, and quit, each followed by another command.')
prop('C34', [('simulator', 'c34')], AI + '; composition of client, handler and command loop over a modelled connection',
     'Every method of the RPC client for any numbers, run through the RPC handler and the command loop with working and failing '
     'operations, the answer cut at several places, and no answer at all.',
     ['names contain no blanks'])
prop('C35', [('simulator', 'c35')], AI,
     'Every read and write method of the drop-in client for any address, count and value, with a master that works and that fails; its '
     'connection.')
prop('C36', [('simulator', 'c36')], AI + '; fault injection into the functions of the worker',
     'The thread function with and without init and exit functions, each working and failing, stopped after 0, 1 and 3 passes; stop of '
     'workers not started, running and ended.',
     ['the exit function itself does not fail'])

prop('C42', [('lines', 'c42')], AI + '; scripted line with bytes left from earlier',
     'A request of every master with 0 to 9000 bytes waiting, a closed connection, local echo and a replaced request; an answer of the '
     'serial server with and without bytes of a new request.')
prop('C43', [('logs', 'c43')], AI + '; comparison of the paths with and without verbose, fault injection into the log handlers',
     'Master.execute and the request handling of the servers with and without verbose: same sends, hooks and results, packets logged; '
     'the text of any packet; emit of the handlers with failing formatting and output.')
prop('C44', [('composite', 'c44')], AI + '; scripted console, must-reach analysis of the sub-servers',
     'CompositeServer of 1, 2 and 4 servers with and without a databank: construction, start, set_verbose, stop; start and close of the '
     'simulator; the console thread on lines typed at any moment, and after close.')
