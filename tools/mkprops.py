#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit the wording)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)
B, S = 'blake2b/src/', 'blake2s/src/'
def both(*n): return [B + x for x in n] + [S + x for x in n]
KERN = both('guts.rs', 'portable.rs', 'sse41.rs', 'avx2.rs')
HOOK = 'cfg(blake2_verify): re-exports of private enums and field addresses'

p('C01', 'Every digest is the digest the BLAKE2 specification (RFC 7693) defines',
  'For every input of every length, hashing it with BLAKE2b or BLAKE2s gives exactly the digest the BLAKE2 specification defines for that message and parameter block, truncated to the requested digest length. This includes empty input, exact multiples of the block size, and byte counters past 2^32 and 2^64.',
  ['inputs'], 'all messages of every length, all parameter blocks, all byte-counter values, every implementation the crate contains',
  'The repository samples a few vectors (lengths 0, 1, one block, a few KiB); a wrong constant, lane, rotation or counter half that only shows for other block contents or counters is not reached.',
  KERN + both('lib.rs'), [('compression function (8 working words, 10/12 rounds)', B + 'portable.rs compress_block, avx2.rs compress_block; ' + S + 'portable.rs, sse41.rs compress_block'),
   ('block loop: counter, padding, final flags', B + 'portable.rs compress1_loop, ' + B + 'guts.rs final_block'), ('one-shot', B + 'lib.rs Params::hash')],
  observe=['Params::hash', 'blake2b()', 'blake2s()', 'State::finalize'], hook=HOOK)

p('C02', 'Parameters are encoded into the parameter block exactly as specified',
  'Every parameter setter changes exactly its own field of the BLAKE2 parameter block, in the specified position, width and byte order, with shorter salts and personalizations padded with zeros, and leaves every other parameter as it was; setters can be called in any order, repeatedly, and the last call wins. Defaults are those of sequential hashing (full digest length, fanout 1, depth 1, the rest zero), and every digest depends on all of these fields.',
  ['inputs', 'histories'], 'all parameter values (all u8/u32/u64 values, all slice lengths and contents) and all sequences of setter calls',
  'The tests set one value per parameter through one vector file; order of calls, byte positions of large node offsets, short or re-set salts and keys are not sampled.',
  both('lib.rs'), [('setters', B + 'lib.rs impl Params'), ('parameter words', B + 'lib.rs Params::to_words, ' + S + 'lib.rs Params::to_words')],
  observe=['Params::hash', 'Params::to_state'], hook=HOOK)

p('C03', 'Incremental hashing equals one-shot hashing for every split',
  'Feeding a message to a hashing state in any number of updates of any sizes (including empty ones) gives exactly the digest of hashing the concatenation at once. This holds for all parameters, keyed or not, and also when the total passes the counter word boundary.',
  ['inputs', 'histories'], 'all messages, all ways of cutting them into updates, all parameters',
  'Tests cut a few messages at a few places; buffer-full/one-more-byte boundaries combined with key blocks and large counters form an unbounded set of histories.',
  both('lib.rs', 'guts.rs', 'portable.rs'), [('buffering', B + 'lib.rs State::{fill_buf, compress_buffer_if_possible, update}'), ('finish', B + 'lib.rs State::finalize')],
  state=[('words, count, buf, buflen', 'chaining value of the complete blocks so far, their byte count, and the pending tail (never empty once input was given)', B + 'lib.rs State')],
  observe=['State::update', 'State::finalize'], hook=HOOK)

p('C04', 'Finalizing changes nothing; clones are independent',
  'Finalizing a state does not alter it: finalizing again gives the same digest, and more input may follow with the result of never having finalized. A clone of a state behaves exactly like the original from that point on and neither affects the other.',
  ['histories'], 'all interleavings of update, finalize, clone, set_last_node and count on a state and its clones, sequential and tree states alike',
  'Tests finalize twice at one or two points; the property is about every history.',
  both('lib.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('finalize works on a copy of the words', B + 'lib.rs State::finalize; ' + B + 'blake2bp.rs State::finalize'), ('derived Clone', B + 'lib.rs State')],
  observe=['State::finalize', 'State::clone'], hook=HOOK)

p('C05', 'count() is exactly the number of input bytes fed so far',
  'At every point the count of a state is exactly the total number of bytes passed to update, with no contribution from a key block, for sequential and tree states. Finalizing, cloning and flag changes do not affect it.',
  ['histories', 'inputs'], 'all histories of updates (sizes unbounded), keyed and unkeyed, totals up to the counter limit of the type',
  'Tests read the count after a handful of small updates; a wrong value at block boundaries, for keyed states, or for totals above 2^32 is not sampled.',
  both('lib.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('counter', B + 'lib.rs State::count, update; ' + B + 'blake2bp.rs State::count')],
  state=[('count', 'bytes compressed so far (of the key block too)', B + 'lib.rs State.count')],
  observe=['State::count'], hook=HOOK)

p('C06', 'Keyed hashing is BLAKE2 keyed mode',
  'With a key of 1 to the maximum number of bytes, the digest is that of the zero-padded key block followed by the message with the key length in the parameter block, in one-shot, incremental, batch and tree hashing alike, and an empty message hashes the key block alone as the final block. An empty key is the same as no key, and setting a shorter key after a longer one leaves nothing of the longer one behind.',
  ['inputs', 'histories'], 'all keys of all lengths, all messages, all sequences of key settings',
  'Tests use one 64/32-byte key through the vector file and one short key; key re-setting, every key length and the empty message in batch form are not covered.',
  both('lib.rs', 'many.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('key block', B + 'lib.rs Params::key, State::with_params; ' + B + 'many.rs HashManyJob::new; ' + B + 'blake2bp.rs State::with_params')],
  observe=['Params::key', 'Params::hash', 'Params::to_state'], hook=HOOK)

p('C07', 'The last-node flag marks exactly the final block, whenever it is set',
  'Setting the last-node flag through the parameters or on the state at any time before finalizing gives the same digest, the one with both finalization flags set on the final block only; clearing it again restores the plain digest. In tree mode the root and the last leaf carry the flag and no other node does.',
  ['inputs', 'histories'], 'all messages, parameters and histories with set_last_node calls anywhere, in one-shot, incremental and batch hashing',
  'Tests set the flag on one message; earlier blocks, batch lanes with mixed flags and late changes are not sampled.',
  KERN + both('lib.rs', 'many.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('finalization words', B + 'guts.rs final flags, ' + B + 'portable.rs compress1_loop, avx2.rs compress4_loop'), ('setter', B + 'lib.rs State::set_last_node')],
  observe=['Params::last_node', 'State::set_last_node', 'HashManyJob'], hook=HOOK)

p('C08', 'Batch hashing gives each job the digest of hashing it alone',
  'For any number of jobs with any mixture of input lengths and parameters (keys, flags and digest lengths included), hash_many gives every job exactly the digest that hashing its input alone with its parameters gives, whatever the order of the jobs and however many lanes the machine offers. Every job is completed, exactly once.',
  ['inputs', 'configurations'], 'all finite job lists, all lengths (equal, different, empty), all parameter mixtures, all degrees 1/2/4/8',
  'Tests run a few job lists of similar lengths; which jobs share lanes and when one is evicted depends on all lengths jointly.',
  both('many.rs', 'guts.rs', 'sse41.rs', 'avx2.rs'), [('job vector, eviction, lane loops', B + 'many.rs fill_jobs_vec, evict_finished, compress_many'), ('parallel kernels', B + 'sse41.rs compress2_loop, avx2.rs compress4_loop; ' + S + 'sse41.rs compress4_loop, avx2.rs compress8_loop')],
  observe=['many::hash_many', 'HashManyJob::to_hash'], hook=HOOK)

p('C09', 'Batch updating gives each state the effect of updating it alone',
  'For any number of states in any condition (different amounts of buffered input, counters, keys, flags) and any inputs, update_many leaves every state exactly as if it had been updated with its own input alone: same digest now and after any further updates, same count. States with nothing to compress are only buffered.',
  ['inputs', 'histories'], 'all lists of states in all reachable conditions and all inputs',
  'Tests use freshly made states and a few input lengths; buffered remainders and mixed counters (including near counter carries) are not covered.',
  both('many.rs', 'lib.rs', 'guts.rs', 'sse41.rs', 'avx2.rs'), [('fill, flat_map of jobs, tail buffering', B + 'many.rs update_many'), ('per-lane counters', B + 'avx2.rs compress4_loop, add_to_counts')],
  observe=['many::update_many', 'State::finalize', 'State::count'], hook=HOOK)

p('C10', 'BLAKE2bp and BLAKE2sp digests are those of the specified tree',
  'For every input, key and digest length, BLAKE2bp and BLAKE2sp give the digest of the tree the specification defines: 4 (8) leaves fed with successive blocks round robin, each with its own node offset and the parameters of the tree, the root hashing the leaf digests, last-node flags on the last leaf and the root. One-shot and incremental tree hashing with any split agree.',
  ['inputs', 'histories'], 'all messages of every length, all keys, all digest lengths, all splits into updates',
  'Tests compare a few lengths and splits; messages ending in any leaf at any offset, and updates crossing the big buffer at any point, are an unbounded set.',
  [B + 'blake2bp.rs', S + 'blake2sp.rs'] + both('guts.rs'), [('leaf buffering and striding', B + 'blake2bp.rs State::{compress_to_leaves, update, finalize}; ' + S + 'blake2sp.rs'), ('root', B + 'blake2bp.rs finalize_root_words'), ('tree parameters', B + 'blake2bp.rs Params::to_words')],
  state=[('leaf_words, root_words, buf, count', 'chaining values of the leaves, of the root, and input not yet given to the leaves', B + 'blake2bp.rs State')],
  observe=['blake2bp::Params::hash', 'blake2sp::State::finalize'], hook=HOOK)

p('C11', 'The CPU or configuration chosen never changes a result',
  'Whatever instruction sets the processor offers, and whichever implementation is selected, all results are the same, and an implementation is only ever selected on a processor that supports it. The number of lanes offered is never more than the crate can fill on that processor.',
  ['configurations', 'inputs'], 'all outcomes of CPU feature detection, all implementations (portable, SSE4.1, AVX2), all inputs',
  'The tests run on one machine, so only one detection outcome is ever seen, and the platforms are compared on fixed patterns of input.',
  KERN + both('many.rs', 'lib.rs'), [('detection and dispatch', B + 'guts.rs Implementation::{detect, degree, compress1_loop, compress2_loop, compress4_loop}'), ('uninline_portable / no_std builds', B + 'portable.rs, ' + B + 'guts.rs')],
  observe=['all digests', 'many::degree()'], hook=HOOK)

p('C12', 'No public call reads or writes outside its buffers, and none panics needlessly',
  'No sequence of public calls with any arguments reads or writes memory outside the buffers it was given or owns, uses uninitialised memory, or panics, other than for the documented out-of-range arguments (in any build profile, arithmetic overflow included, for total lengths within the specification). Inputs are only ever read within their bounds even when they end at the edge of mapped memory.',
  ['inputs', 'histories'], 'all inputs, lengths, alignments and histories; every unsafe kernel and pointer',
  'An over-read of the SIMD loads or a raw-pointer slip does not change a digest, so no test sees it; debug-only overflow needs counters no test reaches.',
  KERN + both('lib.rs', 'many.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('raw loads and stores in the kernels', B + 'avx2.rs compress4_loop; ' + B + 'sse41.rs; ' + S + 'avx2.rs'), ('array_ref, final_block', B + 'guts.rs final_block'), ('job vectors', B + 'many.rs')],
  observe=['every public function'], hook=HOOK)

p('C13', 'Hash equality is equality of length and of every byte',
  'Two hashes compare equal exactly when they have the same length and the same bytes, and a hash compares equal to a byte slice exactly when the slice has the hash\'s length and bytes; only the bytes within the digest length matter. The time of a comparison does not depend on where equal-length contents differ.',
  ['inputs'], 'all pairs of hashes of all lengths and contents, all slices of all lengths',
  'Tests compare a few equal and unequal hashes; truncated digests with equal prefixes, and differences in a single bit anywhere, are not covered.',
  both('lib.rs'), [('PartialEq', B + 'lib.rs impl PartialEq for Hash, impl PartialEq<[u8]> for Hash')],
  observe=['Hash == Hash', 'Hash == [u8]'], hook=HOOK)

p('C14', 'A hash\'s views and conversions all show the same digest',
  'The byte-slice view of a hash has exactly the requested digest length and contents; the hexadecimal form is exactly two lowercase digits per byte in order; conversion from a full-length array keeps every byte; copies of a hash equal it. All views of one hash agree.',
  ['inputs'], 'all digests of all lengths',
  'Tests print a few vectors; digest bytes with particular nibbles, short lengths and round trips are not enumerated.',
  both('lib.rs'), [('views', B + 'lib.rs Hash::{as_bytes, as_array, to_hex}, From impls, AsRef, bytes_to_hex')],
  observe=['Hash::as_bytes', 'Hash::to_hex', 'Hash::from'], hook=HOOK)

p('C15', 'Debug output never reveals keys or hash state',
  'The debug representation of parameters, states, jobs of both crates and both tree variants never depends on key bytes, on buffered message bytes or on chaining words: two values that differ only in those print the same text. The debug form of a digest shows exactly its hexadecimal form.',
  ['inputs'], 'all keys, messages and states',
  'Nothing in the tests looks at the text for secret-dependent parts, and it would have to hold for every key and state.',
  both('lib.rs', 'many.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('hand-written Debug impls', B + 'lib.rs impl Debug for Params, State, Hash; ' + B + 'blake2bp.rs impl Debug; ' + B + 'many.rs impl Debug for HashManyJob')],
  observe=['{:?} of every public type'], hook=HOOK)

p('C16', 'Writing to a state is updating it',
  'Through the standard writer interface every write accepts the whole buffer, reports exactly its length, never fails, and has exactly the effect of an update with those bytes; flushing does nothing. This holds for sequential and tree states.',
  ['inputs', 'histories'], 'all buffers and all histories of writes, flushes and updates',
  'One test writes one message; short counts for particular lengths or a flush with an effect would pass.',
  both('lib.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('impl Write', B + 'lib.rs impl std::io::Write for State; ' + B + 'blake2bp.rs impl std::io::Write')],
  observe=['io::Write::write', 'io::Write::flush'], hook=HOOK)

p('C17', 'Out-of-range parameters are rejected, in-range ones never',
  'A digest length of zero or above the maximum, or a key, salt, personalization, inner hash length or BLAKE2s node offset above its maximum, is rejected by a panic before any parameter changes, in the sequential and the tree variants; every value within range is accepted. No accepted parameters can later make hashing fail.',
  ['inputs'], 'all lengths and values (all of usize), sequential and tree parameter objects',
  'Tests try one value above a limit per parameter at most; off-by-one and huge values that wrap are not covered.',
  both('lib.rs') + [B + 'blake2bp.rs', S + 'blake2sp.rs'], [('asserts in setters', B + 'lib.rs Params::{hash_length, key, salt, personal, inner_hash_length}; ' + B + 'blake2bp.rs Params::{hash_length, key}')],
  observe=['Params setters'], hook=HOOK)

p('C18', 'The command-line tool prints the digest its flags ask for',
  'For every combination of accepted flags the tool prints, for each input, the digest the library gives for that file\'s exact bytes with those parameters, whatever sizes the reads come in and however often they are interrupted, with or without memory mapping (with it, an empty file and standard input count as failed inputs). Flags that do not apply to the chosen function are rejected rather than ignored, and a failed input never stops the others and makes the exit status nonzero.',
  ['inputs', 'fault_sequences'], 'all flag combinations, file contents, read chunkings and interruptions',
  'The tool\'s tests run a few flag combinations on one file; chunked, interrupted and failing reads are not exercised.',
  ['blake2_bin/src/main.rs'], [('flag to parameter mapping', 'blake2_bin/src/main.rs make_params'), ('read loop', 'blake2_bin/src/main.rs read_write_all'), ('error isolation', 'blake2_bin/src/main.rs main')],
  observe=['standard output', 'exit status'])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open('properties.jsonl', 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
print(len(P))
