"""Deciding technique and level note per property (for MANIFEST.json)."""
PBT = 'property-based testing: '
EL = (PBT + 'edge-biased generated registers, every lane against an '
      'independent reference model; shrinking; all API layers and extensions')
N8 = 'All 8-bit operand pairs and 16-bit operands are enumerated; wider types are sampled.'
TECH = {
    'C01': (EL, N8), 'C02': (EL, N8), 'C03': (EL, 'Sampled (f16 unary exhaustive; f32 unary exhaustive in thorough).'),
    'C04': (EL, N8), 'C05': (EL, N8),
    'C06': (EL, 'f16 exhaustive; f32 exhaustive in thorough.'), 'C07': (EL, N8),
    'C12': (PBT + 'generated registers against a permutation model', 'Sampled.'),
    'C13': (EL, 'f16 exhaustive, f32 exhaustive in thorough.'),
    'C16': (PBT + 'differential, scalar functions against vector lanes on generated inputs', 'Sampled.'),
    'C18': (PBT + 'differential, all API layers on the same generated registers', 'Sampled.'),
    'C08': (PBT + 'generated registers, addresses and guard pages against a memory model', 'Sampled, every offset class and alignment.'),
    'C09': (PBT + 'generated masks and addresses with inactive lanes on unmapped pages, memory model', 'Sampled.'),
    'C10': (PBT + 'generated structure arrays against a memory model, store/load round trips', 'Sampled.'),
    'C11': (PBT + 'generated index vectors (duplicates, negative, page ends) against a memory model', 'Sampled.'),
    'C14': (PBT + 'generated arguments against a 113-bit reference, error in ulps', 'Sampled; f16 nearly exhaustive.'),
    'C15': (PBT + 'enumerated and generated bit patterns against a bit-level IEEE model', 'f32 to f16 exhaustive over 2^32 patterns.'),
    'C19': (PBT + 'stateful, generated allocation histories against a memory model, with AddressSanitizer', 'Sampled histories.'),
    'C20': (PBT + 'generated raw operands for many formats against exact integer arithmetic', 'Sampled over formats and operands.'),
    'C21': (PBT + 'generated expression programs, lengths, slices and masks against an element-wise reference, with guard pages and shrinking', 'Every operator form plus random trees; sampled.'),
    'C22': (PBT + 'generated kernels with nested control flow against the same program run thread by thread', 'Sampled programs and inputs.'),
    'C23': (PBT + 'generated counters and keys against an independent scalar implementation of Philox/Threefry', 'Sampled.'),
    'C24': (PBT + 'stateful, generated allocation/copy histories against a memory model, with AddressSanitizer', 'Sampled histories; CPU back end only.'),
    'C25': (PBT + 'generated pairs against an exact integer model', 'Sampled; f16 pairs enumerated with a stride.'),
    'C17': (PBT + 'generated straight-line pack programs, every intermediate register against a reference interpreter', 'Sampled programs and inputs; unroll 1 to 4.'),
    'C26': (PBT + 'generated straight-line register programs on every extension against a reference interpreter', 'Sampled programs and inputs.'),
    'C27': (PBT + 'stateful, generated histories of generator runs against one full run, byte for byte', 'Sampled histories of up to 3 runs.'),
    'C28': (PBT + 'generated lanes, formats and injected stream faults against the expected text', 'Sampled.'),
    'C29': (PBT + 'generated operands evaluated alone, by 8 concurrent threads and after other histories (differential)', 'Sampled operands; schedules chosen by the operating system.'),
    'C31': (PBT + 'generated registers and memory blocks under AddressSanitizer and guard pages, results against the reference model', 'Sampled.'),
    'C30': (PBT + 'generated multi-unit programs over headers, standards, compilers and flags, built and run', 'Sampled configurations.'),
}
