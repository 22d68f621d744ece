"""The properties, their anchors, and what the checks claim."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None,
      state=(), observe=(), note='', na=None):
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files,
                    'state': [{'name': n, 'meaning': m, 'where': w}
                              for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe)},
        'technique': technique, 'note': note, 'na': na})


S, L, X = 'nxt/stage.py', 'nxt/nxt_layer.py', 'nxt/nxt_path.py'

P('C01', 'Working directory is unchanged by every nxt operation',
  """Expanding a file path, loading a layer or file, and building a stage leave
  the process's current working directory exactly as they found it, whether
  they return or raise, and whatever file or directory is missing on the
  way.""",
  ['inputs', 'fault_sequences'],
  'every path, layer and reference tree given to the load and path expansion '
  'operations, every failure in the middle of them',
  """The tests load a few well-formed graphs whose directories exist; the early
  exits and the failures between leaving and returning to the directory are
  never taken.""",
  [X, S], [('change and restore around expansion', X + ':full_file_expand'),
           ('change and restore around loading references',
            S + ':Stage.load_from_file')],
  'typestate of the working directory over normal and exceptional control '
  'flow, interprocedural',
  state=[('working directory', 'process-wide', X)],
  observe=['os.getcwd() before and after a call'])

P('C02', 'All indexes of a layer agree after every node edit',
  """After a node is added to, deleted from, renamed or re-parented in a layer
  (and after one is added to or removed from a composite layer), every way of
  asking the layer about its nodes answers for the new state: lookup by path,
  path of a node, the node table, the list of nodes that is saved, and the
  listings of children.  No way of asking still finds the node under its old
  path, or misses it under its new one.""",
  ['histories', 'inputs'],
  'every sequence of add, delete, rename, parent and comp edits on any layer',
  """The tests run some edits and look at a few answers; a stale index shows
  only through a particular later question after a particular edit.""",
  [S, L], [('paired updates', S + ':Stage.add_node, delete_node, parent_nodes, '
            'set_node_name, add_node_to_comp_layer, '
            'remove_node_from_comp_layer'),
           ('rebuild', L + ':SpecLayer.refresh'),
           ('listing caches', L + ':SpecLayer.clear_node_child_cache')],
  'paired-update typestate over the layer indexes on every path of every '
  'editing operation, aliases and helpers looked through',
  state=[('path and node indexes, node table, node list, child listings',
          'five views of the same set of nodes', L + ':SpecLayer.__init__')],
  observe=['lookup, get_node_path, descendants, children, saved layer data'],
  note='The values put under the keys are not compared, only which views are '
       'updated on which path.')

P('C03', 'Layer settings survive save and load',
  """Every setting a layer has (alias, colour, mute, solo and lock state,
  references, comp overrides, its nodes, and the positions, collapse state,
  aliases, colours and locks it keeps for its graph) is written when the layer is saved, under the key it is read
  from, from the field that holds it, and comes back into that same field when
  the saved data is loaded.""",
  ['inputs', 'histories'],
  'every layer, whatever its settings are and whatever edits set them',
  """The tests save layers that use a few of the settings with values that are
  easy; a setting that is dropped only when false, only when loaded through a
  reference, or read back from another key is never looked at.""",
  [L], [('what is written', L + ':SpecLayer.get_save_data'),
        ('what is read', L + ':SpecLayer.__init__')],
  'label dependence analysis from each stored setting through the saved data '
  'back to the same setting, control dependences included',
  state=[('layer settings', 'the fields of a SpecLayer', L)],
  observe=['get_save_data(), SpecLayer(layer_data=...)'],
  note='Decides which data flows where, not that each value prints and parses '
       'to an equal one.')

P('C04', 'Node settings survive save and load',
  """Everything a node has (start point, instance path, execute-in, child
  order, enabled state, code, comment, and the value, type and comment of each
  attribute) is written when its layer is saved and comes back into the same
  place when the node is made from the saved data; an attribute value that is
  false, zero or empty is not mistaken for a missing one.""",
  ['inputs', 'histories'], 'every node and attribute of every layer',
  """The tests save ordinary nodes with ordinary values; a meta attribute that
  is dropped, or one that is dropped only for falsy values, goes unnoticed.""",
  ['nxt/nxt_node.py', L], [('what is written', 'nxt/nxt_node.py:get_node_as_dict'
                            ),
                           ('what is read', 'nxt/nxt_node.py:create_spec_node '
                            'and SpecNode.new')],
  'label dependence analysis from each node field through the saved data back '
  'to the same field, truth tests tracked',
  note='Decides which data flows where, not that each value prints and parses '
       'to an equal one.')

P('C05', 'A failed save leaves the file and the layer as they were',
  """Saving a layer or a cache serializes all of its data before the target
  file is opened for writing, so data that can not be serialized leaves the
  previous file untouched; and the layer takes its new path and alias only
  after the file was written, so a failed save leaves the layer pointing at
  its old file.""",
  ['fault_sequences', 'inputs'],
  'every save whose data can not be serialized or whose file can not be '
  'written, for every layer and file type',
  """No test makes a save fail.""",
  ['nxt/nxt_io.py', L], [('file writing', 'nxt/nxt_io.py:save_file_data'),
                         ('layer save', L + ':SpecLayer.save'),
                         ('cache save', L + ':CacheLayer.save')],
  'typestate of the target file and the layer identity over all normal and '
  'exceptional paths of the save operations',
  observe=['file content and layer.real_path, alias after a failed save'],
  note='A crash of the process between opening and writing is out of scope.')

P('C06', 'Execution state is put back however node code ends',
  """When the code of a node returns, raises, exits the node or the graph, or is
  interrupted from the keyboard, the runtime layer's running flag is what it
  was before, the names the code left in the console are removed, every node
  timing that was opened is closed, and - when the node was run by the code of
  another node - the console again belongs to that other node (its path, its
  code lines and its `self`).""",
  ['histories', 'fault_sequences'],
  'every execution of nodes or snippets, nested or not, and every way node '
  'code can end',
  """The tests run nodes that succeed or fail once, not within one another, and
  do not look at the runtime state afterwards.""",
  [S], [('run one node', S + ':run'),
        ('run nodes', S + ':Stage.execute_nodes'),
        ('run a snippet', S + ':Stage.execute_custom_code')],
  'typestate of the running flag, console context, globals and node timings '
  'over every way node code can end, nested and not',
  state=[('running flag', 'is node code running', L + ':CompLayer.running'),
         ('console context', 'whose code is running', 'nxt/runtime.py:Console')],
  observe=['runtime_layer.running, console globals, cache layer timings'])

P('C07', 'The end of a node decides the end of the execution',
  """An exception or a SystemExit in node code comes out as a GraphError, as do
  errors in compiling a node or evaluating an attribute; a keyboard interrupt
  comes out unchanged.  Both end the execution.  A node that exits itself only
  ends itself: the nodes after it still run.  A node that exits the graph ends
  the execution with ExitGraph carrying the runtime layer.  The same holds for
  the world node.  Snippets return the exit instead of raising it.""",
  ['inputs', 'fault_sequences'],
  'everything node code can raise, in every node of an execution',
  """The tests cover an error and one exit; each pairing of what is raised,
  where, and by what kind of execution has its own handlers.""",
  ['nxt/runtime.py', S], [('node code errors', 'nxt/runtime.py:Console.runcode'),
                          ('compile', S + ':Stage.get_node_code'),
                          ('attribute evaluation',
                           S + ':Stage.get_attr_as_real_data_type'),
                          ('execution', S + ':Stage.execute_nodes, '
                           'execute_custom_code, setup_runtime_layer')],
  'exception-flow analysis: each exception is injected at the execution, '
  'compilation and evaluation sites and followed to the operation',
  observe=['exception type raised by Stage.execute_nodes'])

P('C22', 'Disabled nodes do not run, enabled ones do',
  """A node that is disabled is not run when nodes are executed, and neither it
  nor any node below it is listed in the execution order; every other node
  that is listed runs, and every other node of a root that execution starts
  from is listed - a node that says nothing about being enabled is
  enabled.""",
  ['inputs', 'histories'],
  'every graph, whatever nodes are disabled in it, and every start point',
  """The tests disable a node in one graph; what happens to nodes without an
  opinion, to nodes two levels below a disabled one, or to the state left by
  the previous node of a loop is not sampled.""",
  [S, L], [('execution', S + ':Stage.execute_nodes'),
           ('order', L + ':SpecLayer.get_exec_order'),
           ('enabled state', 'nxt/nxt_node.py:get_node_enabled')],
  'path sensitive interpretation over the three enabled states of every node '
  'looked up',
  observe=['order of nodes run, get_exec_order()'],
  note='The world node and a start point inside a disabled root are outside.')

P('C09', 'The start point and parameters given are the ones that execute',
  """A start point, a parameter dictionary, a context and a cache path given to
  any of the execute operations - the package function, the session, the
  command line, the remote server, the stage - reach the execution of the
  nodes: the order starts at the given start point, every given parameter is
  set before the first node runs whatever other parameters were invalid, and
  the runtime layer returned or cached is the one that ran.""",
  ['inputs', 'configurations'],
  'every combination of given and omitted arguments of every execute '
  'operation, and every mix of valid and invalid parameters',
  """A hand-over is lost only for one combination of optional arguments, at one
  entry point, often across a process boundary the tests do not cross.""",
  ['nxt/session.py', 'nxt/remote/server.py', 'nxt/cli.py', 'nxt/__init__.py', S],
  [('entry points', 'nxt/session.py:Session.execute_graph, execute_nodes'),
   ('remote', 'nxt/remote/server.py:ServerFunctions.exec_in_headless'),
   ('command line', 'nxt/cli.py:execute'),
   ('stage', S + ':Stage.execute, setup_runtime_layer, set_runtime_parameters')],
  'information flow of each argument to the execution it is for, on every '
  'path and at every hand-over, aliases and helpers looked through',
  observe=['nodes run, attribute values at the first node, returned layer'],
  note='Keys and values of parsed command line parameters are not told apart.')

P('C23', 'Every operation refers only to things that exist',
  """No nxt operation fails because of what nxt's own code refers to: every
  name, module attribute, class constant and attribute of its own objects
  that is used exists, every local name has been bound where it is read, texts
  are filled with the fields they ask for, results are unpacked into as many
  names as they have parts, and every call of nxt code passes arguments the
  callee accepts - in the package and in the node code of the graphs that come
  with it, on error paths and rare branches too.""",
  ['inputs', 'histories'],
  'every input and history that reaches any statement of the package',
  """A reference is only looked up when its statement runs; most error paths
  and rarely used operations are never run by the tests.""",
  ['nxt/session.py', S, L, 'nxt/nxt_node.py', 'nxt/nxt_io.py',
   'nxt/remote/server.py', 'nxt/builtin/remote_contexts.nxt'],
  [('package', 'nxt/*.py'), ('builtin graphs', 'nxt/builtin/*.nxt')],
  'resolution of every name, attribute and call against the definitions of '
  'the package and the libraries it imports (queries over the syntax trees '
  'and symbol tables, a points-to analysis for the objects nxt makes, and a '
  'definite-assignment dataflow for local names)',
  observe=['AttributeError, NameError or TypeError raised by nxt code itself'],
  note='An attribute of an object of unknown type is only required to exist '
  'on some class of the package or of the libraries it imports.')

P('C08', 'An rpc server an execution starts ends with it',
  """An rpc server that executing a graph or nodes starts is shut down when that
  execution ends, however it ends, and a session keeps owning its server when
  another start finds it running; only a server that answered and that this
  start made is handed out.  Starting leaves the environment and the log file
  handle as they were, and a failed start leaves no process and no log socket
  behind.  Terminating tells the server to end or, when it can not be told,
  ends its process.""",
  ['histories', 'fault_sequences', 'configurations'],
  'every way an execution can end and every step at which a start can fail',
  """The tests start a server that works, and run graphs that succeed; no test
  fails between the start of the server and the execution, or interrupts one.
  """,
  ['nxt/session.py'], [('sessions', 'nxt/session.py:Session.execute_graph, '
                        'execute_nodes, _start_rpc_server'),
                       ('process', 'nxt/session.py:RPCServerProcess.start, run, '
                        'terminate')],
  'typestate of the server process, its log handle, the log socket and the '
  'environment over every normal and exceptional way out',
  state=[('server process', 'alive', 'nxt/session.py:RPCServerProcess.terminal'),
         ('owned server', 'which one', 'nxt/session.py:Session.rpc_server')],
  observe=['processes, environment, ports after an execution or a start'],
  note='A server that ignores being told and a process that ignores signals '
       'are outside.')

P('C16', 'Equal paths are the same path, whichever object holds the text',
  """Node paths, file paths, node names and other text are compared by value:
  no result depends on whether two equal texts are one object, and a
  comparison with an object made for the comparison - which can not hold - is
  not used.""",
  ['inputs', 'histories'],
  'every path, name or other value computed, parsed or loaded rather than '
  'shared',
  """Whether equal texts are one object depends on the interpreter and on how
  the text came to be; literals in tests are shared.""",
  [X, S, L], [('comparisons', 'nxt/*.py')],
  'query over every identity comparison, with the values both sides can hold '
  'from dataflow through calls, fields and containers',
  observe=['children(), implied nodes, instance child order'],
  note='One-character constants, classes and enumerated class constants are '
       'objects of their own and exempt.')

P('C19', 'What nxt opens it closes',
  """Every file, descriptor, socket and server that nxt opens is closed by the
  time the operation that opened it returns or raises, unless it is handed to
  the caller or kept in a place something closes later; and a socket timeout
  that is changed for one exchange is put back however the exchange ends.""",
  ['fault_sequences', 'histories'],
  'every way out of every operation that opens something, whatever fails on '
  'the way',
  """A leaked handle shows only on the failing exit that leaks it, and even
  then only as a descriptor nobody counts or a port that stays taken.""",
  ['nxt/session.py', 'nxt/nxt_io.py', 'nxt/nxt_log.py', 'nxt/remote/server.py',
   'nxt/remote/nxt_socket.py', 'nxt/plugin_loader.py'],
  [('sockets', 'nxt/remote/nxt_socket.py'), ('rpc', 'nxt/session.py'),
   ('session logs', 'nxt/nxt_log.py:make_session_log, stop_session_log'),
   ('plugins', 'nxt/plugin_loader.py')],
  'typestate of every opened resource over every normal and exceptional way '
  'out, interprocedural, with ownership handed on by return and by field',
  observe=['open descriptors, bound ports before and after an operation'],
  note='That a kept resource is closed is decided by its field, not by '
       'instance; exits of the process are outside.')

P('C20', 'The verbosity set last is in force; a session log is logged to once',
  """Whatever verbosity was set before, setting one makes it the one in force:
  nothing, from the execution level on, or everything is output, once, and the
  handler can be changed again.  Every logger method logs exactly when its
  level is enabled and at that level.  Making a session log for a file logs
  each message to it once, however often it is made; stopping it ends that and
  closes the file.""",
  ['histories', 'inputs'],
  'every sequence of verbosity changes and session log starts and stops',
  """Tests set the verbosity once; what a second setting does to what the first
  left behind needs a sequence.""",
  ['nxt/nxt_log.py'],
  [('verbosity', 'nxt/nxt_log.py:set_verbosity'),
   ('session logs', 'nxt/nxt_log.py:make_session_log, stop_session_log'),
   ('levels', 'nxt/nxt_log.py:NxtLogger')],
  'path sensitive interpretation of every change of the handlers, from each '
  'state an earlier change can have left (an inductive invariant)',
  state=[('handler in force', 'the stream handler', 'nxt/nxt_log.py:'
          'verbose_handler'),
         ('session log handlers', 'one per file', 'nxt/nxt_log.py')],
  observe=['handlers and levels of the root logger'],
  note='The socket verbosity and what python logging does with its handlers '
       'are outside.')

P('C30', 'An interrupt or an exit is never swallowed',
  """A keyboard interrupt that arrives anywhere in an nxt operation leaves it as
  a keyboard interrupt, and a request to exit the process is not ignored:
  neither is caught for good by a handler, dropped by a clean up that returns,
  or suppressed by a context manager.""",
  ['schedules', 'fault_sequences'],
  'every call of every operation, as the point an interrupt arrives',
  """An interrupt can arrive between any two instructions; tests do not
  interrupt anything.""",
  ['nxt/session.py', 'nxt/remote/server.py', 'nxt/runtime.py', S,
   'nxt/remote/nxt_socket.py'],
  [('shutting down', 'nxt/session.py:RPCServerProcess.terminate'),
   ('running code', 'nxt/runtime.py:Console.runcode'),
   ('execution', S + ':Stage.execute_nodes'),
   ('socket exchange', 'nxt/remote/nxt_socket.py')],
  'exception flow: an interrupt and an exit are injected at each call and '
  'followed through handlers, clean ups and context managers',
  observe=['what an operation that is interrupted raises'],
  note='An exit asked for by node code becomes an error of the node (C07).')

P('C10', 'Links that lead back are followed to an end',
  """Whatever an nxt file says, operations on it end.  Where what is followed
  can lead back to where it started - references between layers, instance
  paths, execution order, the dependents of a node - each step goes on only
  from something that was not met before, so that loading, building,
  execution order, instance traces and deletion end for cyclic graphs too.""",
  ['inputs'],
  'every graph of references, instance paths and execute in paths, however '
  'cyclic',
  """Which links a file holds is unbounded; a test of one cycle shows only that
  one is ended, and one that fails does not fail but hangs.""",
  [S, L],
  [('references', S + ':Stage._load_references, new_sublayer'),
   ('instance traces', S + ':Stage.get_instance_sources'),
   ('instances', S + ':Stage.discover_proxies, instances_ancestor'),
   ('execution order', L + ':SpecLayer.get_root_exec_order'),
   ('dependents', L + ':CompLayer.get_node_dirties')],
  'progress obligations on every loop and recursion along links: each round '
  'meets a value tested absent from what was met, and adds it to that',
  observe=['that an operation on a cyclic graph ends'],
  note='That a layer finite in size is walked in finite time, and that the '
       'creation of instances behind the check is finite, is taken for '
       'granted; attribute references are bounded by the recursion limit.')

P('C11', 'Asking, building, executing and saving change nothing authored',
  """Asking a stage or a layer anything, building a stage, executing it and
  saving it leave what was authored as it was: no node of a layer gets, loses
  or changes a setting, no list or table a layer is made of is edited, and
  nothing a node inherits from is touched through the composite node.  Only
  caches, and the composite and runtime layers made on the way, change.  No
  operation at all edits the code or child order of a node in place where
  another node or layer may hold the same list.""",
  ['inputs', 'histories'],
  'every query, build, execution and save, on every stage and layer, after any '
  'edits',
  """A question that edits what it reads answers correctly the first time; the
  damage is seen by another question, about another layer, later.""",
  [S, L, 'nxt/nxt_node.py'],
  [('building', S + ':Stage.build_stage'),
   ('executing', S + ':Stage.execute_nodes, setup_runtime_layer'),
   ('asking', L + ':SpecLayer.children, descendants, get_save_data'),
   ('making nodes', 'nxt/nxt_node.py:create_spec_node')],
  'interprocedural side effect and sharing summaries (access paths), to a '
  'fixpoint over the call graph, with the arguments that are switches bound',
  observe=['node settings and layer tables before and after an operation'],
  note='What node code does is its own. Layers looked up by name outside the '
       'analysis of access paths (more than seven steps deep) are not '
       'followed.')

P('C14', 'What is handed out or taken in is nobody else\'s',
  """The lists and dictionaries that asking a stage or a layer returns belong to
  the caller: editing them changes no later answer and no node.  A node that
  is given code or a child order from another node, or by a caller, keeps a
  list of its own, and so does every layer, built or loaded, with its tables,
  positions, collapse state, overrides and listings: setting something on a
  localized or copied node never shows on the node it came from.""",
  ['inputs', 'histories'],
  'every query and transfer, every later edit of what it returned or copied',
  """Sharing is invisible until one of the two holders is edited in place, which
  takes a particular later operation on a particular pair.""",
  [S, L, 'nxt/nxt_node.py'],
  [('listings', L + ':SpecLayer.children, get_cached_child_paths'),
   ('node data', S + ':Stage.get_node_data, transfer_node_data'),
   ('child order', S + ':Stage.set_node_child_order'),
   ('meta data', L + ':SpecLayer.get_meta_data')],
  'interprocedural sharing summaries (access paths of returned and kept '
  'containers), to a fixpoint over the call graph',
  observe=['a later answer after the returned list was edited'],
  note='add_node keeps the code list of the data it is given, as the tests '
       'ask; Stage.reference_layers is the live list by design.')

P('C12', 'Only saving writes to files',
  """Opening, building, querying, resolving and editing a graph leave every
  file, every directory and the environment of the process as they were, and
  start no process.  Only the operations that are there to write do: saving,
  adding a sub layer (which saves it), session logs, contexts, conversions and
  execution in another process.  A copy for execution is written only in the
  directory asked for, whatever the layers' own paths are, and each of its
  references points at the copied layers.""",
  ['inputs', 'histories'],
  'every operation on every graph, whatever its paths are',
  """That nothing was written cannot be observed from a few samples: the write
  may need a path, a version of a file or a state no test has.""",
  [S, L, 'nxt/nxt_io.py', 'nxt/session.py', 'nxt/tokens.py'],
  [('writing', 'nxt/nxt_io.py:save_file_data'),
   ('reading', 'nxt/nxt_io.py:load_file_data'),
   ('copies', S + ':Stage.save_to_temp')],
  'effect reachability over the call graph from every operation, provenance of '
  'the paths copies are written to',
  observe=['files and environment before and after an operation'],
  note='What node code and plugins do is theirs. Copies of layers with the '
       'same file name in one directory overwrite each other.')

P('C17', 'A layer setting is the one set, and an override wins over it',
  """The alias, colour, lock, mute and solo state that is set on a layer is what
  asking for it gives, falsy or not; an override set for a layer is in force
  instead of it - on the layer at the top of its chain, over any older override
  on the way, until it is replaced or removed.  Setting one changes nothing
  else, asking changes nothing, and an override of the top layer is refused
  without failing.""",
  ['histories', 'inputs'],
  'every setting, value and order of local and override edits, on every layer '
  'of a chain',
  """The tests set an override once, on a layer directly below the top; what a
  second one, a false one or a removed one does is not looked at.""",
  [L], [('settings', L + ':SpecLayer.set_alias_over, set_color_over, '
         'set_locked_over, set_mute_over, set_solo_over'),
        ('asking', L + ':SpecLayer.get_alias, get_color, get_locked, get_muted, '
         'get_soloed'), ('along the chain', L + ':get_comped_layer_overs, '
                         'get_root_parent')],
  'abstract interpretation of each setter followed by each getter, over the '
  'layers above and beside',
  state=[('overrides', 'per layer path', L + ':SpecLayer.comp_overrides, '
          'aliases, colors, locks')],
  observe=['the getters after the setters'],
  note='Chains are taken three layers deep: a top, one between, one below, and '
       'one beside it.')

P('C21', 'Muted layers contribute nothing; if any are soloed, only those do',
  """A layer that is muted takes no part in a comp; when any layer is soloed only
  soloed layers do; every other layer does, in the order of the layers.  The
  nodes, the working directory and the path of a comp come from the layers
  that take part.""",
  ['inputs', 'configurations'],
  'every list of layers, each muted or not and soloed or not',
  """The combinations of mute and solo over a stack of layers grow without
  bound; the tests mute or solo one layer.""",
  [L, S], [('filter', L + ':get_active_layers'),
           ('comp', S + ':Stage.build_stage')],
  'abstract interpretation of the filter for one layer among any others in '
  'each state of mute and solo; provenance of what is composed',
  observe=['layers returned, nodes of the comp, its cwd and real_path'],
  note='Positions and collapse states are taken from all layers.')

P('C13', 'A search, count or wait never goes round with nothing changed',
  """Every loop that looks for its own end - the search for a name that is not
  taken, the climb from a node, a layer or a path to its parents, the step
  through file versions, the descent level by level, the wait for the server,
  the reading of log records - ends for every input: each way round it moves
  what its ending depends on, a counter goes towards its bound and cannot step
  past it, a poll that sleeps is bounded by a count or a clock, a closed
  connection ends a read, and no list grows without a test while it is gone
  through.  Links that lead back are C10's matter.""",
  ['inputs', 'histories', 'fault_sequences'],
  'every way round every such loop, whatever the values; a stream may end at '
  'any read',
  """Whether a loop ends depends on names taken, depths, versions and what a
  peer sends, of which a test picks a few; a loop that does not end shows in
  no assertion.""",
  [L, S, X, 'nxt/legacy.py', 'nxt/nxt_log.py', 'nxt/session.py',
   'nxt/cli.py'],
  [('search for a name', S + ':Stage.get_unique_node_name'),
   ('climb', L + ':get_root_parent'),
   ('versions', 'nxt/legacy.py:FileConverter.__init__'),
   ('wait', 'nxt/session.py:RPCServerProcess._start_process'),
   ('log records', 'nxt/nxt_log.py:LogRecordStreamHandler.handle')],
  'path enumeration of loop bodies with symbolic values in terms of those at '
  'the beginning; dependence of the ways out on what has moved',
  observe=['whether the operation returns'],
  note='Movement is necessary for an end, not enough for it: a measure that '
       'goes down is shown for counters only.')

P('C18', 'What is gone through loses and moves nothing on the way',
  """A loop over a list, a dictionary or a set comes to every element that was
  there when it began, once: nothing is taken out of it or put in between, and
  no key is added, while the loop is going on - not in its body, and not in a
  function called from there - unless the loop ends with the change.  So
  removing layers, renaming, reparenting and deleting nodes, cleaning up and
  saving neither skip an element nor fail half way.""",
  ['inputs', 'configurations'],
  'every loop over a container and every change its body can lead to, for any '
  'contents',
  """An element is skipped only when two that are to go stand next to each
  other, and a dictionary fails only when its size changes; a test with one
  element to remove sees neither.""",
  [S, L, 'nxt/nxt_log.py', 'nxt/nxt_node.py', 'nxt/session.py'],
  [('references removed', S + ':Stage.remove_sublayer'),
   ('nodes moved', S + ':Stage.parent_nodes'),
   ('layers with an opinion', S + ':Stage.get_layers_with_opinion'),
   ('session logs', 'nxt/nxt_log.py:track_log_file'),
   ('save data', L + ':SpecLayer.get_save_data')],
  'abstract interpretation of loop bodies with summaries of what called '
  'functions change in place, per container object',
  observe=['elements visited, errors raised'],
  note='Containers are told apart by where they were got from; elements of '
       'one container only by the name they have in the loop. Appending to a '
       'list is not a change here (see C13).')

P('C32', 'A node or attribute never takes the place of another',
  """Adding, duplicating, renaming or moving a node gives it a path that no node
  has - neither one of its own layer, muted or soloed away or not, nor one the
  comp shows - unless the caller asks for names to be kept; and nxt itself asks
  for that only where the path was seen to be free, or follows a node that has
  moved.  In the same way an attribute that is added or renamed gets a name no
  attribute of the node has in that layer and nxt does not keep for itself, and
  setting an attribute that is there
  makes no second one.""",
  ['histories', 'configurations', 'inputs'],
  'every add, duplicate, rename and move, for every set of nodes already there '
  'and every state of the layers',
  """Two nodes at one path show only when the name was taken in the one place
  that was not asked: another layer, a muted one, another parent; the loser is
  gone from the saved file.""",
  [S], [('search', S + ':Stage.get_unique_node_name, get_unique_attr_name'),
        ('use', S + ':Stage.add_node, set_node_name, parent_nodes, '
         'add_node_attr, rename_node_attr'),
        ('names kept', S + ':Stage.add_node_hierarchy, duplicate_node')],
  'abstract interpretation of the naming operations over every path, with the '
  'set of (layer, path) pairs and names known to be free',
  state=[('the paths of a layer', 'which node is where',
          L + ':SpecLayer.__init__')],
  observe=['paths before and after an edit, number of nodes saved'],
  note='Descendants that move with a node are taken to be free below a free '
       'path. What a stale comp does not show yet is not known to be taken.')

P('C33', 'A save or load that returns has been done',
  """Saving a layer, a cache or a session's file, sending a cache to a client,
  copying the layers for execution, making a context and converting a file return
  (or answer that it is done) only after the file was written; loading a file
  returns only after it was read.  A failure in between - data that can not be
  serialized, a file that can not be opened, read or written - is raised to the
  caller.""",
  ['fault_sequences', 'inputs'],
  'every save and load operation, every failure of an encoder or of the file '
  'system on the way',
  """The tests save good data to writable places; a save that only logs its
  failure and returns looks the same to them, and to the user who closes the
  editor after it.""",
  ['nxt/nxt_io.py', L, 'nxt/session.py', S],
  [('writing', 'nxt/nxt_io.py:save_file_data'),
   ('reading', 'nxt/nxt_io.py:load_file_data'),
   ('saving', L + ':SpecLayer.save, CacheLayer.save'),
   ('session', 'nxt/session.py:Session.save_file, load_file, get_stage'),
   ('copies', S + ':Stage.save_to_temp')],
  'typestate of the save or load (not done, failed, done) over every '
  'interprocedural path, exceptional ones included',
  observe=['return values and exceptions of the operations, files written'],
  note='References that are missing while a stage is built are dropped by '
       'design and not looked at; that the right file is written is not either.')

P('C24', 'Every form of a listing names the same nodes',
  """Children, descendants, ancestors and execution order name the same nodes,
  in the same order, whichever form they are asked for in: paths, names, nodes,
  or a table.  Asking about a path with no node answers with nothing.""",
  ['inputs', 'histories'],
  'every layer, every path, every return form',
  'The tests ask for one form on one graph; the forms are computed by '
  'different code.',
  [L, S], [('forms', L + ':CompLayer.children, descendants, ancestors')],
  observe=['the listings'],
  na='The forms are computed by different list and string operations; that '
     'two results are equal is a relational property of the values of two '
     'computations, which no analysis here decides without running them. '
     '(Defects found by reading were repaired; agreement of the indexes '
     'behind the listings is C02.)')

P('C25', 'The strongest opinion wins in what is built',
  """A built graph shows, for every attribute, code block and setting of a node,
  the opinion of the strongest layer that has one, falling back along the
  instance source and then along the layers below; child order lists are merged
  so that no opinion about two names is turned round.""",
  ['inputs', 'configurations'],
  'every stack of layers, mute and solo state, instance graph',
  'The tests build a few stacks; the order matters only where layers disagree.',
  [S, L], [('strength order', S + ':Stage.build_stage'),
           ('merge of child orders', 'nxt/nxt_node.py:list_merger')],
  observe=['what a comp layer says about a node'],
  na='Which opinion is strongest is a value computed through lists of layers, '
     'reversals and in-place merges; a static rule would have to fix the way '
     'the composition is written. C21 decides which layers take part, C11 and '
     'C14 that composing changes none of them.')

P('C26', 'A resolved value is what its tokens say',
  """Resolving an attribute replaces each token by the value it stands for,
  from the inside out, leaves text without tokens as it is, and gives the same
  answer whether it is asked through the stage, a plugin or running code.""",
  ['inputs'],
  'every attribute value, nesting of tokens, and plugin',
  'The texts a user can write are without bound; tests hold a dozen.',
  [S, 'nxt/tokens.py', 'nxt/plugins/file_fallbacks.py'],
  [('resolve', S + ':Stage.resolve'), ('tokens', 'nxt/tokens.py')],
  observe=['the resolved text'],
  na='A statement about the output of a text rewriting system on arbitrary '
     'text: equality of strings is beyond what the analyses here can bound. '
     'Its ending is partly C13, its purity C11.')

P('C27', 'Values keep their type and content through save and load',
  """An attribute value that is saved and read back evaluates to an equal value
  of the same type: numbers, text, containers, and text that looks like
  something else.""",
  ['inputs'], 'every value an attribute can hold',
  'The tests store a handful of literals.',
  [S, 'nxt/nxt_node.py', 'nxt/nxt_io.py', 'nxt/legacy.py'],
  [('value text', S + ':Stage.get_node_attr_value')],
  observe=['the value after load'],
  na='Equality of arbitrary values after json and literal_eval is a property '
     'of those libraries on runtime data. That nothing is dropped for being '
     'false or empty is decided under C04.')

P('C28', 'Recomposing a part equals recomposing the whole',
  """After an edit, the graph updated in place shows the same nodes and opinions
  as one built anew from the same layers.""",
  ['histories'], 'every sequence of edits and partial updates',
  'Stale data shows only for particular combinations of edits and instances.',
  [S], [('partial update', S + ':Stage.update_comp, '
         'add_node_to_comp_layer, remove_node_from_comp_layer')],
  observe=['the comp layer after an edit against a new one'],
  na='Equality of two large computations over all histories; needs a relation '
     'between heaps that no static domain in reach expresses. The paired '
     'updates of the indexes, which the partial update relies on, are C02.')

P('C29', 'A crash while saving loses no file',
  """If the process or machine stops at any point of a save, the file on disk
  holds either the old graph or the new one.""",
  ['crash_points'], 'every point at which a save can stop',
  'No test stops the process in the middle of a write.',
  ['nxt/nxt_io.py', L], [('write', 'nxt/nxt_io.py:save_file_data')],
  observe=['the file after a crash'],
  na='nxt does not offer it: the file is opened for writing in place, after '
     'the content has been serialized (which C05 decides). A check would '
     'report a missing feature, not a broken guarantee; replacing the way '
     'files are written (links, permissions, watchers) is not a small repair.')

P('C31', 'Files are found in the order of the search paths',
  """A file token gives the first existing match along the search roots of the
  layer, and with no match the documented fall back.""",
  ['inputs', 'configurations'],
  'every set of search roots and every state of the file system',
  'The answer depends on the file system and environment.',
  ['nxt/plugins/file_fallbacks.py', X],
  [('search', 'nxt/plugins/file_fallbacks.py')],
  observe=['the path a token resolves to'],
  na='The answer is a function of the file system at run time; statically '
     'only the shape of the loop could be pinned down, which would judge how '
     'it is written.')
