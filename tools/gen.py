#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (P: claimed once harness/<id> exists; N: not applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/dbzero/core/'
def p(id, title, statement, over, text, why, files, mech, note=''):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=[S + f if not f.startswith('src') else f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech]), note=note)
I, H = 'inputs', 'histories'
P = [
 p('C01', 'A page read as of a transaction finds the newest version not after it',
   'For every page and every transaction number, looking the page up as of that transaction returns the storage location written by the newest recorded change of that page made at or before it, and reports no location exactly when no such change was recorded. Recording a further change never alters the answer for any earlier transaction or any other page. The encoding of the versions of a page (full images and differences) preserves their order and locations exactly.',
   [H, I], 'every history of recorded page changes and every (page, transaction) query', 'the tests query a handful of recorded histories; the encoding has value-dependent widths and overflow chains that few sampled histories exercise',
   ['storage/SparseIndex.hpp', 'storage/SparseIndexBase.hpp', 'storage/SparsePair.cpp', 'storage/SparseIndexQuery.cpp', 'storage/DiffIndex.cpp'],
   [('compressed item order and width', 'SparseIndex.hpp'), ('difference chain items and overflow', 'DiffIndex.cpp'), ('lookup over both indexes', 'SparseIndexQuery.cpp')]),
 p('C02', 'Applying a recorded page difference reproduces the page exactly',
   'For every pair of page images of equal size (pages up to 32 KiB), applying the difference computed from the old image to the new one onto a copy of the old image yields the new image byte for byte, and no byte outside the page is read or written. When a difference is refused as too large the page is stored in full instead, and an undamaged stored difference is always decoded to what was stored. Differences packed together in one page are read back in the order written, each with its own page and transaction number.',
   [I, H], 'every pair of page images and every sequence of differences packed into a page', 'the number of image pairs is astronomically large and the encoding has 8-bit and 16-bit length limits tests rarely hit',
   ['storage/diff_utils.cpp', 'storage/diff_buffer.cpp', 'storage/Diff_IO.cpp', 'memory/diff_buffer.hpp'],
   [('difference computation', 'diff_utils.cpp'), ('difference encoding', 'diff_buffer.cpp'), ('packing into pages', 'Diff_IO.cpp')]),
 p('C03', 'A chunk stream returns exactly what was appended, in order',
   'Reading a block stream from its start returns exactly the chunks appended and flushed, in order, with identical content, whatever their sizes relative to the block size, and then reports the end. A chunk larger than a block is split and reassembled without loss; a reader that follows the stream while it is extended sees each chunk once, complete. In a stream kept with checksums, damage to a byte of a stored block is detected: neither that block nor anything after it is returned as data.',
   [H, I, 'fault_sequences'], 'every sequence of appended chunk sizes and contents, every block size, every single damaged byte', 'tests append few sizes; boundary conditions occur only when a header or a chunk ends within a few bytes of a block end',
   ['storage/BlockIOStream.cpp', 'storage/ChangeLogIOStream.cpp', 'storage/ChangeLog.cpp', 'storage/ChangeLog.hpp'],
   [('chunk and block headers', 'BlockIOStream.cpp'), ('change log encoding', 'ChangeLog.cpp')]),
 p('C04', 'Distinct stored pages never share a file location',
   'Every page number handed out by the page writer is distinct from every other page number ever handed out or reserved, blocks handed to the different streams of one file never overlap, and the relative-to-absolute page mapping of a data file is one-to-one and inverted exactly. Reading any page back after writes to others yields what was last written to it. Reopening at the recorded end position continues without reusing a location.',
   [H, I], 'every history of page appends, step sizes, reopen positions and mapping registrations', 'tests run few histories with one or two step sizes',
   ['storage/Page_IO.cpp', 'storage/Block_IO.hpp', 'storage/REL_Index.cpp', 'storage/ExtSpace.cpp'],
   [('page numbering and block steps', 'Page_IO.cpp'), ('relative mapping', 'REL_Index.cpp')]),
 p('C05', 'Memory handed out by an allocator never overlaps other live memory',
   'Every allocation that succeeds lies inside the managed range, is at least as large as requested and does not overlap any live allocation. A unique address is never handed out twice. Freeing releases exactly the freed allocation, the size reported for a live allocation is the one it was created with, and space freed can be allocated again. The accounting of free space and of live allocations matches the history of calls.',
   [H, I], 'every sequence of allocate and free calls with every size', 'tests sample short random call sequences; overlap shows only in particular fill patterns of the compact allocation maps',
   ['crdt/CRDT_Allocator.cpp', 'memory/SlabAllocator.cpp', 'memory/MetaAllocator.cpp', 'memory/AlgoAllocator.cpp', 'memory/BitsetAllocator.hpp', 'memory/OneShotAllocator.cpp', 'dram/DRAM_Allocator.cpp', 'memory/BitSpace.hpp'],
   [('unit fill map', 'CRDT_Allocator.cpp'), ('slab delegation', 'MetaAllocator.cpp'), ('bit map allocation', 'FixedBitset.hpp')]),
 p('C06', 'Object addresses decode to exactly the parts they were made from',
   'For every storage offset and instance number within their documented ranges, the combined address returns exactly those two parts and no two different pairs share an address. Address arithmetic that maps slabs, realms and pages to storage positions is one-to-one: it inverts exactly and images of different slabs never overlap. Comparison of addresses is a total order consistent with equality and with the numeric value.',
   [I], 'every offset, instance number, slab index and realm', 'a sampled set of addresses does not cover the 64-bit space in which fields overlap or wrap',
   ['memory/Address.hpp', 'memory/Address.cpp', 'memory/MetaAllocator.cpp', 'memory/AlgoAllocator.cpp', 'memory/utils.hpp'],
   [('packed fields', 'Address.hpp'), ('address pool functions', 'MetaAllocator.cpp')]),
 p('C07', 'Packed values decode to exactly what was encoded, within the measured size',
   'For every value, encoding it and decoding the result returns the same value, the encoder writes exactly the number of bytes it announced and touches no other byte, and an absent value is distinguishable from every present one. Strings, binaries, arrays and lists keep their length, contents and element order, and appending to a packed array leaves the items already there unchanged. Decoding a length-limited buffer of arbitrary bytes as an integer, a string or a binary never reads past its end.',
   [I], 'every value, length and content; every byte string given to a bounded decoder', 'encodings are value-dependent in width; tests round-trip a handful of values and hostile buffers are hardly tested',
   ['serialization/packed_int.hpp', 'serialization/packed_int_pair.hpp', 'serialization/packed_array.hpp', 'serialization/micro_array.hpp', 'serialization/string.hpp', 'serialization/Types.cpp', 'serialization/list.hpp', 'serialization/bounded_buf_t.hpp', 'serialization/Foundation.cpp'],
   [('7-bit groups with continuation bit', 'packed_int.hpp'), ('bounds-checked cursor', 'bounded_buf_t.hpp')]),
 p('C08', 'Textual and binary identifiers convert back to the same identity',
   'Converting any object identifier to its text form and back returns an identical identifier, different identifiers have different texts, and the text has the documented alphabet and length. Converting any byte string of up to 40 bytes to base-32 and back returns the same bytes, and malformed text is rejected rather than silently decoded to some identity. Comparing two identifiers is a total order consistent with equality of all their parts.',
   [I], 'every identifier and every byte string up to the supported size', 'only a few identifiers are converted by tests',
   ['utils/base32.cpp', 'src/dbzero/object_model/value/ObjectId.cpp', 'utils/uuid.cpp'],
   [('base-32 coding', 'base32.cpp'), ('identifier text form', 'ObjectId.cpp')]),
 p('C09', 'Dates, times and decimals survive storage and keep their order',
   'Every valid date, time, date-time and decimal within the supported range is decoded from its stored form to exactly the value that was stored (supported: time zones of whole hours, date-times with a time zone to the millisecond, decimals of up to 17 significant digits with up to 63 decimal places; further decimal digits are cut off). Decimals that cannot be represented, NaN and infinity are refused. The stored forms of dates, times and date-times without time zone compare like the values they stand for. Distinct values of the supported range have distinct stored forms.',
   [I], 'every calendar value and every decimal in the supported range', 'the tests check a handful of calendar values',
   ['src/dbzero/bindings/python/types/DateTime.cpp', 'src/dbzero/bindings/python/types/PyDecimal.cpp', 'src/dbzero/bindings/python/types/ByteUtils.cpp'],
   [('bit fields of dates and times', 'DateTime.cpp'), ('decimal packing', 'PyDecimal.cpp')]),
 p('C10', 'Small bit-packed stores return each slot as last set',
   'Setting a slot of a bit-packed store makes that slot return the value set and leaves every other slot, and the set of occupied slots, as they were. Finding the first unset position returns an unset position whenever one exists, and the lowest one. Sizes and counts reported equal the number of slots set.',
   [I, H], 'every store content, every slot, every value in range', 'the tests set a few slots in a fixed order',
   ['collections/bitset/FixedBitset.hpp', 'utils/num_pack.hpp', 'utils/FlagSet.hpp'],
   [('word and bit indexing', 'FixedBitset.hpp'), ('fixed-width slots', 'lofi_store')]),
 p('C11', 'A data file reopens, is followed and is copied with every transaction intact',
   'After a flush, reopening a data file returns for every page and every recorded transaction exactly the page contents written as of that transaction, and writing can continue without disturbing them. A reader that follows the file while it is being written sees, after refreshing, exactly the transactions flushed so far and reports which pages they changed. Copying a data file yields a file with the same contents for every page and transaction, to which writing can continue.',
   [H], 'every history of full and difference page writes, flushes, reopenings, refreshes and copies, with every page and step size', 'losses show only with particular alignments of steps, blocks and continued differences',
   ['storage/BDevStorage.cpp', 'storage/copy_prefix.cpp', 'storage/Page_IO.cpp', 'storage/BlockIOStream.cpp', 'storage/DRAM_IOStream.cpp'],
   [('reading a page from its image and differences', 'BDevStorage.cpp'), ('flush order', 'BDevStorage.cpp'), ('copying page storage', 'copy_prefix.cpp')]),
 p('C12', 'Stored indexes and block vectors behave like sets and sequences',
   'An index (in each of the forms it takes as it grows: single item, short arrays, sorted vector, tree of blocks) contains exactly the items inserted and not erased since, however inserts, erases and bulk operations follow one another and wherever it is reopened in between. A bulk operation reports exactly the items that were really added or removed. Iterating it in either direction yields each item once in order, and joining at a key moves to the nearest item not yet passed in the direction of travel. The block vector holds exactly the elements written to each position, after any appending, overwriting, popping and erasing.',
   [H, I], 'every history of operations, item values and sizes, on both sides of each change of form', 'the form changes at sizes and block fills that few sampled histories reach together with a join or an erase',
   ['collections/b_index/mb_index.hpp', 'collections/b_index/v_bindex.hpp', 'collections/vector/v_sorted_vector.hpp', 'collections/vector/v_bvector.hpp'],
   [('change of form', 'mb_index.hpp'), ('blocks and block split', 'v_bindex.hpp'), ('element addressing', 'v_bvector.hpp')]),
 p('C13', 'A query returns exactly the objects of its set expression, once and in order',
   'A query built from index lists with and, or (exclusive) and and-not yields exactly the keys of the corresponding set expression, each once, in the order of its direction; joining at a key skips exactly the keys before it, and starting it over yields the same keys. After a batch of adding and removing tags the list of each tag holds exactly the objects for which the last operation on that pair was an addition, or which had the tag and were not touched, and the objects are reported exactly as often as they gained or lost a tag.',
   [H, I], 'every tree of set operations over every content of the lists, every sequence of steps and joins, every history of batches', 'results go wrong only for particular interleavings of keys between several lists or orders of operations within a batch',
   ['collections/full_text/FT_ANDIterator.cpp', 'collections/full_text/FT_ORXIterator.cpp', 'collections/full_text/FT_ANDNOTIterator.cpp', 'collections/full_text/FT_BaseIndex.cpp'],
   [('joining all lists at one key', 'FT_ANDIterator.cpp'), ('heap of alternatives', 'FT_ORXIterator.cpp'), ('subtrahends', 'FT_ANDNOTIterator.cpp'), ('flushing a batch', 'FT_BaseIndex.cpp')]),
]
N = [
 ('C51', 'Committed data survives a crash at any moment', 'After a crash at any moment, reopening a prefix shows exactly the state of the last completed commit: no committed transaction is lost and no partial one is visible.', ['crash_points', 'fault_sequences'], 'every crash point of every commit', 'tests never stop the process inside a commit', ['storage/BDevStorage.cpp', 'storage/DRAM_IOStream.cpp'], [('flush order of the streams', 'BDevStorage.cpp')],
  'statement about the contents of a file after an arbitrary prefix of system calls took effect across BDevStorage, DRAM_IOStream and CFile; no contract over a function body within the reach of the verifier expresses the file-system state at an interior crash point (the codecs and lookups it relies on are claimed as C01-C04)'),
 ('C52', 'Readers see one consistent snapshot while a writer commits', 'A reader of a prefix observes, for its whole transaction, the state of exactly one commit of the writer, in any interleaving of both processes.', ['schedules'], 'every interleaving of one writer and several reader processes', 'the tests run few interleavings', ['memory/PrefixImpl.cpp', 'storage/BDevStorage.cpp'], [('state numbers and refresh', 'BDevStorage.cpp')],
  'concurrency between processes through the file system and memory-mapped caches: contract-based sequential verification conditions do not quantify over schedules'),
 ('C53', 'Memoized objects are destroyed exactly when the last reference is gone', 'An object reachable from a root is never destroyed and an object that lost its last reference is destroyed by the next commit, for every program of reference changes from Python.', ['programs', H], 'every program over the Python API', 'the tests run a fixed set of programs', ['src/dbzero/object_model/object/Object.cpp', 'src/dbzero/workspace/GC0.cpp'], [('reference counters and deferred drop', 'GC0.cpp')],
  'depends on CPython reference counts, weak references and interpreter callbacks that have no specification the verifier could use; the statement quantifies over interpreter states, not over inputs of a function'),
 ('C54', 'Atomic blocks and transactions of the Python API are all-or-nothing', 'Changes made inside an atomic block become visible together or, if the block fails, leave every object and collection as before the block.', ['programs', 'fault_sequences'], 'every program using atomic blocks and every point of failure in it', 'the tests run fixed programs', ['src/dbzero/workspace/AtomicContext.cpp', 'memory/PrefixImpl.cpp'], [('atomic lock copies', 'AtomicContext.cpp')],
  'the behaviour is spread over the Python bindings, workspace and resource-lock cache with virtual dispatch over shared_ptr graphs and interpreter state; no function-by-function contract within reach expresses it'),
]
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if k != 'note'}) + '\n')
        for n in N:
            q = p(*n[:-1]); f.write(json.dumps({k: v for k, v in q.items() if k != 'note'}) + '\n')
    checks, na = [], [dict(property=n[0], reason=n[-1]) for n in N]
    for q in P:
        d = f'{V}/harness/{q["id"]}/meta.json'
        if not os.path.exists(d): na.append(dict(property=q['id'], reason='check not built yet')); continue
        m = json.load(open(d))
        checks.append(dict(property=q['id'], quick_cmd=f'python3 check.py {q["id"]}', thorough_cmd=f'python3 check.py {q["id"]} --thorough', technique='contract-based deductive verification of the real code (verification conditions from its LLVM IR, z3); bounded contract checks where out of reach', level=m['level'], level_note=m.get('level_note') or 'Contracts proved for all inputs on the functions listed in the evidence; whole-structure histories only by bounded stand-ins, never counted as proved. Trusts clang, the VC generator engine/vc.cpp, z3 and the assumptions in the evidence.'))
    hooks = json.load(open(V + '/tools/hooks.json')) if os.path.exists(V + '/tools/hooks.json') else dict(guard='DB0_CONTRACTS', enable='-DDB0_CONTRACTS=1 (check.py passes it when compiling proof harnesses)', source_commits=[])
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup --core', hooks=hooks, checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
main()
