INC = 'include/sdsl/'
CLAIMED.append(dict(id='P01', title='load mirrors serialize for every structure',
 statement='For every structure, load consumes from the stream exactly the items that serialize writes - the same items in the same order, with the same element types, sizes and repetition counts - on every path through serialize. After load, every member that later operations can observe has either the value that serialize wrote for it or one that load computes from what it has read; nothing of the former content of the loading object remains visible. A fixed width int_vector written in variable width format can be loaded as int_vector<0>.',
 over=['inputs', 'histories', 'configurations'], overtext='for every structure type and instantiation parameter, every content (empty, small, larger than one io chunk, ...) and every former content of the loading object',
 why='Tests store and reload one structure per file into a fresh object; a part that is skipped only for empty or tiny content, chunked reads beyond 32 MiB, trailing items left in the stream before the next structure, and stale members of a reused object do not show.',
 anchors=A([INC+x for x in ('int_vector.hpp','io.hpp','wt_pc.hpp','wt_int.hpp','wm_int.hpp','rrr_vector.hpp','sd_vector.hpp','hyb_vector.hpp','select_support_mcl.hpp','bp_support_sada.hpp','csa_wt.hpp','csa_sada.hpp','cst_sct3.hpp','cst_sada.hpp','lcp_dac.hpp','k2_treap.hpp','rmq_support_sparse_table.hpp','csa_sampling_strategy.hpp')],
   [('byte sequence on the stream','what is stored','serialize/load of each class')],
   [('read_member/write_member, load_vector/serialize_vector, write_header/read_header','io.hpp, int_vector.hpp')],
   ['queries on the loaded object; the stream position after load']),
 technique='lockstep abstract execution of load against the symbolic write trace of every path of serialize',
 note='Every path of serialize yields a symbolic trace of items; load is executed abstractly against it with symbolic sizes and loop counts. Two loop count invariants (k2_treap, wt_ap) are assumed and reported as not decided.'))
CLAIMED.append(dict(id='P02', title='serialize reports exactly the bytes it writes',
 statement='On every path through every serialize (or comparable writing) function, the returned number of bytes is the number of bytes written to the stream. If a structure tree node is passed, the node created for the object gets the same number, exactly once, and the nodes of its components are attached below it and not beside it.',
 over=['inputs', 'histories', 'configurations'], overtext='for every structure type, every content, with and without a structure tree',
 why='The numbers are what size_in_bytes, size_in_mega_bytes and write_structure report; tests compare almost none of them, and a component counted once instead of per block only matters for larger inputs.',
 anchors=A([INC+x for x in ('io.hpp','int_vector.hpp','select_support_mcl.hpp','structure_tree.hpp','wt_ap.hpp','louds_tree.hpp','rmq_support_sparse_table.hpp','csa_sampling_strategy.hpp','bp_support_sada.hpp')],
   [('written_bytes','bytes written so far','every serialize function')],
   [('structure_tree::add_child/add_size','structure_tree.hpp'),('size_in_bytes, write_structure','io.hpp')],
   ['size_in_bytes; JSON and HTML structure reports']),
 technique='symbolic byte accounting: ghost counter compared with the returned linear expression on every abstract path',
 note='Loop sums are closed forms; equality is decided by polynomial identity testing over the symbolic terms. Formatted output (vbyte loop) is not decided.'))
CLAIMED.append(dict(id='P03', title='Copy, move, assignment and swap transfer the complete logical value',
 statement='For every public container and succinct structure, the object obtained by copy construction, move construction, copy assignment, move assignment or swap has exactly the logical value the other object had before, in every part of its state that any later operation can observe, on every path through the operation. Applying the operation to the object itself changes nothing. Two objects never both own, and therefore never both release, the same memory block.',
 over=['inputs', 'histories', 'configurations'], overtext='for every structure type of the library, every instantiation parameter, every content of source and destination, including self application',
 why='Tests copy a few small instances of a few instantiations and compare a handful of answers; a forgotten member that is equal in the sampled instances, a path only taken for empty or shared data, or a shared heap block that is only released twice later stays unnoticed.',
 anchors=A([INC+x for x in ('int_vector.hpp','wt_pc.hpp','wt_int.hpp','csa_wt.hpp','csa_sada.hpp','cst_sct3.hpp','enc_vector.hpp','select_support_mcl.hpp','rmq_support_sparse_table.hpp','dac_vector.hpp','k2_treap.hpp','int_vector_buffer.hpp','int_vector_mapper.hpp')],
   [('data members of each structure','the logical value','class definitions in include/sdsl')],
   [('user written copy/move constructors, assignment operators, swap and copy helpers','every class in include/sdsl'),('implicitly generated special members','classes that declare none')],
   ['every const query on the target object']),
 technique='interprocedural path-sensitive provenance dataflow over the resolved syntax tree of every special member',
 note='Decides for every instantiated class that each observable member of the target holds the source member on every abstract path; containers of the standard library are trusted. Over-approximates loops by induction summaries.'))
CLAIMED.append(dict(id='P04', title='Internal pointers always refer to the own object',
 statement='Whenever a structure consists of parts that refer to each other through pointers or references, these refer to parts of the same object after every construction, load from a stream, copy, move, assignment and swap. No object ever answers queries through a part that belongs to another (possibly destroyed) object.',
 over=['inputs', 'histories', 'configurations'], overtext='for every composite structure, every way to bring it into existence or to give it a new value, and every order of such operations',
 why='A dangling or foreign internal pointer usually still points to intact memory in a test, because the original object lives on with the same content; only a later destruction or change of the original exposes it.',
 anchors=A([INC+x for x in ('wt_pc.hpp','wt_int.hpp','csa_sada.hpp','csa_wt.hpp','cst_sct3.hpp','cst_sada.hpp','inv_perm_support.hpp','wt_gmr.hpp','sd_vector.hpp','hyb_vector.hpp','lcp_support_tree.hpp','lcp_support_sada.hpp','csa_alphabet_strategy.hpp','structure_tree.hpp')],
   [('support pointers (bit vector of rank/select supports, suffix array of lcp supports, ...)','which object answers the query','support classes')],
   [('set_vector / set_supported / constructor arguments','all composites')],
   ['queries on a copy after the original has been destroyed']),
 technique='points-to analysis of internal pointers over all constructing and transferring operations',
 note='Every pointer leaf that some operation binds to an own member must be bound to it after every operation, on every abstract path. Pointers that are never read outside constructors are not considered.'))
CLAIMED.append(dict(id='P22', title='Illegal configurations and writes to read-only data do not compile',
 statement='A template argument outside the documented range of a structure (width above 64, block size, sample density, arity, unknown bit pattern, a component of the wrong category), an operation on a structure that lacks the capability it needs (lexicographic order, expand, bit width) and any write through a constant vector, an immutable structure or a mapping opened read only is rejected at compile time. So is copying an owner of an open file. The corresponding uses at and inside the boundary compile.',
 over=['configurations'], overtext='for every structure template with a documented parameter range, every algorithm with a documented requirement and every mutating operation of a read-only view',
 why='A test program that must not compile cannot be part of the suite, and each test instantiates only a few legal arguments; a weakened assertion or a non-const overload passes every test.',
 anchors=A([INC+x for x in ('int_vector.hpp','int_vector_mapper.hpp','bit_vector_il.hpp','rrr_vector.hpp','csa_wt.hpp','csa_sada.hpp','csa_sampling_strategy.hpp','wt_algorithm.hpp','wt_pc.hpp','suffix_array_algorithm.hpp','k2_treap.hpp','dac_vector.hpp','coder_comma.hpp','rank_support_v.hpp','select_support_mcl.hpp','bp_support_g.hpp','construct_sa.hpp')],
   [('template parameters','legal configurations','static_assert and enable_if in the headers')],
   [('static_assert','class and function templates'),('const and non-const overloads','views')],
   ['whether a program compiles']),
 technique='type-level compile-fail witnesses: pairs of an illegal and a legal program for every contract, decided by the type checker',
 note='Every contract consists of illegal programs that have to be rejected and twin programs that have to be accepted. clang 18 front end; semantic analysis including template instantiation, nothing is run.'))
CLAIMED.append(dict(id='P18', title='Every operation exists for every supported structure and delivers',
 statement='Every structure offers construction, copy, move, swap, serialize, load, its queries (also on constant objects) and its iterators for every supported combination of its template arguments. An operation with a result never ends without delivering one, and no operation calls itself on every path.',
 over=['configurations', 'inputs'], overtext='for 170 structures built from all bit vectors, wavelet tree shapes, codes, samplings, alphabets, lcp representations, parentheses supports and range minimum supports, and for all inputs of each function',
 why='Member functions of templates are only compiled when they are used; tests use few operations of few combinations, mostly on non-const objects, so an operation that does not compile, forgets to return on a rare path, or recurses endlessly stays unnoticed.',
 anchors=A([INC+x for x in ('wt_pc.hpp','wt_int.hpp','wm_int.hpp','wt_rlmn.hpp','csa_wt.hpp','csa_sada.hpp','csa_bitcompressed.hpp','cst_sct3.hpp','cst_sada.hpp','lcp_support_tree.hpp','bp_support_g.hpp','bp_support_gg.hpp','suffix_array_helper.hpp','suffix_tree_algorithm.hpp','csa_alphabet_strategy.hpp','rrr_vector_15.hpp','hyb_vector.hpp')],
   [('public member functions and algorithms','what a user can call','headers')],
   [('queries, iterators, special members','every structure')],
   ['whether a program that uses the operation compiles; whether the call returns a value']),
 technique='type-checked use programs for every structure; control-flow graph analysis of every instantiated function (value returned on all paths, no unconditional self call)',
 note='clang 18 front end on programs that name every operation; instantiates all function bodies. csa_wt over integer wavelet trees is only used with integer alphabets.'))
CLAIMED.append(dict(id='P05', title='Constant operations change nothing and can run concurrently',
 statement='No query of a structure and no algorithm that takes a structure by constant reference changes the structure, any object that its internal pointers lead to, or state shared by all objects of the process (apart from memory accounting and the in-memory file system). Hence any number of threads may query the same or different objects at the same time, and the answers do not depend on the order of the queries.',
 over=['schedules', 'histories', 'inputs'], overtext='for every constant member function of every structure, iterator and helper, every algorithm on constant structures, every interleaving of such calls',
 why='Tests are single threaded and query objects in one order; a cache in a mutable member, a static scratch buffer or a write through an internal pointer gives right answers there.',
 anchors=A([INC+x for x in ('csa_sada.hpp','csa_wt.hpp','wt_int.hpp','wt_pc.hpp','lcp_support_sada.hpp','lcp_support_tree2.hpp','cst_sct3.hpp','cst_sada.hpp','suffix_array_algorithm.hpp','wt_algorithm.hpp','util.hpp','bp_support_sada.hpp','rmq_support_sparse_table.hpp')],
   [('mutable members, function-local statics, globals','state that constant operations could share','headers and lib'),('internal pointers','supported objects','support classes')],
   [('constant member functions and algorithms with constant structure parameters','all headers')],
   ['results of queries in other threads or later queries']),
 technique='interprocedural effect analysis: write-root summaries of all functions reachable from constant operations',
 note='Two level points-to (own storage / reached through a pointer, per member); flow insensitive. Library calls by a table of effects. Memory accounting and the RAM file system are exempt (they have their own locks).'))
CLAIMED.append(dict(id='P06', title='No operation depends on indeterminate values',
 statement='Every constructor of every structure, support structure and iterator - explicit, delegating or generated, on every path - gives every scalar and pointer member a value, so that a default constructed or empty object always behaves the same, whatever the memory contained before. No function reads a local variable before it has been given a value.',
 over=['inputs', 'histories', 'configurations'], overtext='for every class that can be stored or that users construct directly, every constructor and every path through it; for every function of the library and every path from a branch',
 why='Indeterminate members are usually zero in a fresh test process; empty and default constructed objects are hardly used in tests.',
 anchors=A([INC+x for x in ('wt_gmr.hpp','inv_perm_support.hpp','cst_sct3.hpp','cst_fully.hpp','cst_iterators.hpp','dac_vector.hpp','bp_support_sada.hpp','lcp_support_sada.hpp','lcp_support_tree.hpp','k2_treap.hpp','nn_dict_dynamic.hpp','hyb_vector.hpp','wm_int.hpp','select_support_mcl.hpp')],
   [('scalar and pointer members','sizes, levels, supported objects','class definitions')],
   [('in-class initialisers, member initialiser lists, constructor bodies and their helpers','every class')],
   ['size, serialize and comparison of default constructed or empty objects']),
 technique='definite initialisation dataflow over all constructors, interprocedural; flow analysis of local variables in every instantiated function',
 note='Arrays of scalars and members of standard library type are not considered. Members handed to a function by non-constant reference count as initialised. Branches that are infeasible because of correlated conditions count as feasible.'))
CLAIMED.append(dict(id='P07', title='Sizes and positions are never cut below 64 bits',
 statement='No size, position, rank, symbol or file offset that belongs to the input is stored in, counted in, shifted in or converted to fewer than 64 bits on its way through construction, queries, iteration and file access, unless it has been reduced to a bounded part (block relative offset, remainder, masked field) or compared with a bound before. Objects with more than 2^32 elements, bits or bytes and universes beyond 2^32 therefore behave like small ones.',
 over=['inputs'], overtext='for every function of the library and of every structure, and inputs of every size up to 2^64',
 why='All test inputs are far below 2^32 elements, bits and bytes, so a 32 bit counter, offset or intermediate shift gives the same results there.',
 anchors=A([INC+x for x in ('int_vector.hpp','util.hpp','bits.hpp','sd_vector.hpp','hyb_vector.hpp','bit_vector_il.hpp','sorted_stack_support.hpp','int_vector_buffer.hpp','k2_treap.hpp','rrr_vector.hpp','wt_int.hpp','cst_sct3.hpp','cst_sada.hpp','bp_support_g.hpp','csa_sampling_strategy.hpp')]+['lib/construct_lcp.cpp','lib/construct_bwt.cpp'],
   [('size_type values','sizes and positions','every function')],
   [('local variables, members and parameters that hold sizes and positions','include/sdsl, lib')],
   ['queries at positions beyond 2^32; vectors with 2^32 and more elements; files beyond 4 GiB']),
 technique='interprocedural value-origin dataflow (which values can be as large as an input size or position) combined with intervals; every narrowing, narrow counter and narrow shift is an obligation',
 note='Value carriers are 64 bit variables, members, parameters, results and the elements of vectors. Values read back from a table of unknown content (raw 64 bit words, std::map) are not tracked, so a cut of such a value is not reported. 8 bit conversions are not considered.'))
CLAIMED.append(dict(id='P08', title='RAM file names and disk file names are never confused',
 statement='A file name that starts with @ denotes a file in memory for every operation that takes a file name: such a name is never passed to the operating system, and no other name reaches the in-memory file system. The streams use their buffer only as the kind (memory or disk) it was created as. So an operation on a RAM file neither reads, creates, changes nor removes a file on disk, and vice versa.',
 over=['inputs', 'histories'], overtext='for every file name (with and without @), every operation that opens, creates, measures, maps, renames or removes files, including temporary and check files, and every path to a system call',
 why='Tests use either disk files or RAM files with operations for which both work; a name of the wrong kind usually just creates a stray file or reports a missing one.',
 anchors=A(['lib/ram_fs.cpp','lib/sfstream.cpp','lib/util.cpp','lib/io.cpp','lib/ram_filebuf.cpp','lib/construct_lcp_helper.cpp',INC+'int_vector_mapper.hpp',INC+'io.hpp',INC+'construct.hpp',INC+'memory_management.hpp',INC+'int_vector_buffer.hpp'],
   [('first character of a file name','memory or disk','is_ram_file'),('m_streambuf','ram_filebuf or filebuf','sfstream.cpp')],
   [('is_ram_file, ram_file_name, disk_file_name','ram_fs.cpp'),('osfstream/isfstream','sfstream.cpp')],
   ['files on disk; content of the in-memory file system']),
 technique='path-condition analysis of every file name that reaches a system call or the in-memory file system, through helpers, members and callers',
 note='A name is proven to be of one kind by a dominating is_ram_file test, by a literal or formatted prefix, or by the conversion functions; otherwise the obligation moves to the callers. A stored name (member) is judged by all its assignments.'))
CLAIMED.append(dict(id='P09', title='State shared by the whole process is synchronised',
 statement='All data of the memory monitor, the huge page allocator and the in-memory file system is only accessed while the lock of its owner is held; locks are released on every path, not taken twice by one thread and never in opposite orders. Every other variable shared by the process is atomic, constant after initialisation, or a named configuration switch. Hence independent structures can be built, stored and destroyed in different threads.',
 over=['schedules', 'histories'], overtext='for every function of the library, every call path and every interleaving of threads that use different objects',
 why='No test of the suite is multi threaded; a missing lock, a check before the lock or a weak memory order shows only under particular interleavings.',
 anchors=A([INC+'memory_management.hpp','lib/memory_management.cpp','lib/ram_fs.cpp',INC+'ram_fs.hpp',INC+'util.hpp','lib/util.cpp'],
   [('memory_monitor::event_stack, completed_events, current_usage, ...','memory accounting','memory_management.hpp'),('hugepage_allocator::m_free_large, m_top, ...','heap','memory_management.cpp'),('ram_fs::m_map','files in memory','ram_fs.cpp'),('_id_helper::id','unique ids','util.hpp')],
   [('util::spin_lock','util.hpp'),('std::lock_guard scopes','memory_management, ram_fs')],
   ['answers and files of concurrent threads']),
 technique='lockset analysis (scoped locks, locks at function entry from all callers), lock-order graph, effect analysis of all globals',
 note='The protected data is all non-atomic data of a class that has a lock. ram_fs::content hands out one file: whoever opens the same RAM file from several threads has to synchronise. Exempt configuration: util::verbose, construct_config::byte_algo_sa, memory_manager::hugepages.'))

CLAIMED.append(dict(id='P16', title='Constant tables and cache keys hold the values they are defined to hold',
 statement='Every entry of every constant lookup table written out in the source (set bits, highest and lowest bit of a byte, select in a byte, low and high bit masks, prefix sum overflow masks, Fibonacci numbers, de Bruijn sequence and its index) has exactly the value of its documented definition. The names under which construction stores intermediate results are pairwise different, and the names used for byte and integer alphabets are those of byte and integer data.',
 over=['inputs','configurations'], overtext='for every entry of every table, hence for every word, position, code and alphabet that indexes them, with and without hardware support for bit operations',
 why='Single entries are used by rare words only, and several tables are used only in builds without SSE4.2; tests run one build and sample words.',
 anchors=A(['lib/bits.cpp',INC+'bits.hpp',INC+'config.hpp','lib/config.cpp',INC+'csa_alphabet_strategy.hpp','lib/csa_alphabet_strategy.cpp'],
   [('bits::lt_cnt, lt_hi, lt_lo, lt_sel, lo_set, lo_unset, ps_overflow, lt_fib, lt_deBruijn_to_idx','lookup tables','lib/bits.cpp'),('conf::KEY_*','names of cached files','config.hpp')],
   [('bits::cnt, lo, hi, sel, select_support, coder::fibonacci','bits.hpp and users of the tables')],
   ['bits::*, decoding, select; files of the construction cache']),
 technique='constant folding of the initialisers by the compiler front end, compared with the definition of every entry',
 note='Tables that are computed at start-up (Elias, Fibonacci and excess decoding tables, binomial coefficients) are not covered.'))

CLAIMED.append(dict(id='P11', title='Failed file operations are reported',
 statement='A function that stores or loads data through a stream it opens itself returns true only if the file was opened, the stream was still good after the last operation (for output: after closing the file), and every storing or loading function it delegates to succeeded. The file streams of the library (osfstream, isfstream) show every failed open, close, seek and tell of their buffer in their state, and a stream that is opened successfully is good. Operations of an in-memory file buffer never touch a file that is closed and report failure then.',
 over=['faults','inputs','histories'], overtext='for every function of this kind and every path through it, whichever of the operations fails: missing file, truncated file, full or unwritable device, closed file, position outside of the file',
 why='Tests run on a healthy disk; a lost error only shows when an operation fails at one particular place.',
 anchors=A([INC+'io.hpp','lib/io.cpp','lib/sfstream.cpp','lib/ram_filebuf.cpp',INC+'int_vector_mapper.hpp'],
   [('state of the local streams','opened, written, closed','io.hpp'),('m_streambuf','buffer of a stream','sfstream.cpp'),('m_ram_file','open file or null','ram_filebuf.cpp')],
   [('store_to_file, store_to_checked_file, store_to_plain_array, load_from_file, load_vector_from_file, store_to_cache, load_from_cache','io.hpp'),('osfstream, isfstream','sfstream.cpp')],
   ['return value; stream state']),
 technique='path-sensitive typestate analysis of local streams and of the results of buffer operations',
 note='Constructors and construct() have no error channel and are outside of the property; failures that the operating system reports only after close are too. Formatted input until end of file counts as read.'))
CLAIMED.append(dict(id='P14', title='Memory blocks, mappings and descriptors are released exactly once',
 statement='Every memory block, file mapping and file descriptor that a structure, a mapper, a stream or a helper function acquires by hand is released exactly once, by the function that matches its acquisition. On no path - including those through failing constructors and operations - is the last reference to it lost, is it released twice, used after its release, left in a member after its release or owned by two objects.',
 over=['histories','faults','inputs'], overtext='for every member that owns a raw resource, every state of it that the operations of its class can produce, and every path through every function that acquires, passes on or releases one (explicit failures: thrown exceptions and failed system calls)',
 why='A leak or a dangling member has no effect on the results of a test; a second release happens in the destructor of an object that tests do not bring into that state.',
 anchors=A([INC+x for x in ('memory_management.hpp','select_support_mcl.hpp','bp_support_gg.hpp','int_vector_mapper.hpp','int_vector.hpp','cst_iterators.hpp','structure_tree.hpp')]+['lib/sfstream.cpp','lib/io.cpp','lib/util.cpp'],
   [('m_data, m_longsuperblock, m_miniblock, m_pioneer_bp_support, m_streambuf, m_fd, m_mapped_data, m_stack_cache','the owned resource','classes')],
   [('alloc_mem, realloc_mem, free_mem','memory_management.hpp'),('mmap_file, mem_unmap, open_file_for_mmap, close_file_for_mmap','memory_management.hpp'),('constructors, destructors, assignments, load, open','owners')],
   ['heap growth, descriptor count, crashes in destructors']),
 technique='path-sensitive ownership analysis: abstract resources, reachable member states as a fixpoint per class, inlined helpers',
 note='Exceptions out of standard library calls (bad_alloc from a container) are not followed. The node graphs of the Hu-Tucker construction and the interior of the huge page allocator are outside.'))
CLAIMED.append(dict(id='P10', title='Construction leaves no intermediate files behind',
 statement='Every file that a function of the library makes under a name it generates is removed again on every normal return (or belongs to an object that removes it), and every file made under a cache name is removed or entered into the file map of the configuration; no function removes or reads such a file while it still has it open for writing. Files held by an object (int_vector_buffer::close(true), a mapper that deletes on close, the disk queue) are removed exactly when the object was told to, on every path on which it lets go of the file. construct removes every registered file if delete_files is set, including those registered through a local configuration.',
 over=['inputs','configurations','histories'], overtext='for every function that makes a file and every path through it to a normal return, for every input that selects that path (exceptions are outside)',
 why='A leftover file changes no result; most of the branches that make files depend on the input (recursion of the suffix sorter, empty classes, special alphabets), and tests compare results, not directories.',
 anchors=A([INC+x for x in ('construct.hpp','construct_sa_se.hpp','construct_bwt.hpp','wt_int.hpp','wm_int.hpp','wt_ap.hpp','wt_rlmn.hpp','wt_gmr.hpp','k2_treap.hpp','lcp_wt.hpp','lcp_support_tree.hpp','lcp_support_tree2.hpp','csa_sampling_strategy.hpp','int_vector_buffer.hpp','int_vector_mapper.hpp')]+['lib/construct_sa_se.cpp','lib/construct_lcp.cpp','lib/construct_lcp_helper.cpp','lib/construct_isa.cpp','lib/util.cpp','lib/io.cpp'],
   [('config.file_map','files to delete later','config.hpp'),('m_filename, m_file_name, m_delete_on_close','files owned by objects','int_vector_buffer.hpp, int_vector_mapper.hpp, construct_lcp_helper.cpp')],
   [('tmp_file, cache_file_name, register_cache_file, store_to_cache, delete_all_files','io.hpp, util.cpp'),('int_vector_buffer::close','int_vector_buffer.hpp')],
   ['content of the directory of temporary files and of the RAM file system after construction']),
 technique='path-sensitive typestate analysis of files, identified by the symbolic value of their name, with function summaries',
 note='Loops over the elements of a container are taken to reach every element. Files whose name is the name of a caller file with a fixed suffix are output, not intermediate.'))
