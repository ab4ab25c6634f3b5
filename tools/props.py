prop('C01', 'A received block is accepted exactly when its checkword allows it',
     'While synchronised, a 26-bit block is accepted exactly when its checkword is valid for the expected offset word, or when error correction is enabled and flipping one burst of one or two adjacent bits makes it valid; an accepted block then carries the 16 data bits of that codeword. Any other block is dropped, never guessed, and each corrected or dropped block counts as one block error.',
     ['inputs', 'configurations'], 'every 26-bit word, every expected offset word (including the alternative third-block word), error correction on and off, every prior state of the group and error history',
     'The tests decode a few recorded transmissions and a handful of damaged blocks; the 2^26 words times five offset words, and in particular the words just outside the correctable set, are not reached.',
     ['src/block_sync.cc', 'src/groups.cc'],
     [('syndrome computation and offset recognition', 'src/block_sync.cc calculateSyndrome, getOffsetForSyndrome'), ('burst correction table', 'src/block_sync.cc makeErrorLookupTable, correctBurstErrors'), ('block acceptance', 'src/block_sync.cc BlockStream::findBlockInInputRegister')],
     'Proof for all words, offsets and states: the syndrome equals the polynomial remainder, the correction table is exactly the 51 bursts, and one block step accepts exactly the specified words.')
prop('C02', 'While synchronised every 104 bits yield exactly one group of its own blocks',
     'While synchronised, each run of 26 bits is one block, blocks are placed in the cyclic order first, second, third, fourth, and exactly after every fourth block one group is delivered, once. A delivered group contains only blocks received in its own 104 bits: nothing of an earlier group, its type or its programme identification is carried over.',
     ['inputs', 'histories'], 'every in-sync decoder state (any partial group, register, error history), every next bit; by induction every bit sequence',
     'Tests feed a few fixed bit strings; a block or type leaking into the next group needs particular loss patterns at particular positions.',
     ['src/block_sync.cc', 'src/groups.cc'],
     [('bit and block clocking', 'src/block_sync.cc BlockStream::pushBit'), ('group hand-over', 'src/block_sync.cc BlockStream::handleNewlyReceivedGroup, popGroup')],
     'Proof by one-step induction over an arbitrary in-sync state.')
prop('C03', 'Block sync is acquired on a consistent rhythm and dropped on sustained errors',
     'Out of sync, every bit position is examined, and sync is acquired exactly when the offset word just recognised is the third of three recognised offset words (the current and two of the last three) that lie one to six blocks apart each in the cyclic order; the group then started holds only that block. In sync, sync is dropped exactly when more than 42 of the last 50 blocks did not match their expected offset word, and the error history then starts afresh.',
     ['inputs', 'histories'], 'every decoder state, every bit and every bit position counter value; by induction every bit stream',
     'Acquisition and loss depend on long histories (up to 50 blocks and 12-block windows) that the tests sample a few times with clean or fully random data.',
     ['src/block_sync.cc', 'src/util.hh'],
     [('rhythm detection', 'src/block_sync.cc SyncPulse::couldFollow, SyncPulseBuffer'), ('loss of sync', 'src/block_sync.cc BlockStream::findBlockInInputRegister'), ('error window', 'src/util.hh RunningSum')],
     'Proof by one-step induction over arbitrary out-of-sync and in-sync states; positions of remembered offset words are assumed pairwise distinct (each is recorded at a new bit position; 32-bit wrap-around after 41 days is outside the claim).')
prop('C06', 'Fields common to all groups come only from blocks that were received',
     'Every line printed for a group gives the PI of the current station as 0x and four upper-case hexadecimal digits. tp, prog_type and group are given exactly when the second block was received (group only when the type is certain: version B needs the alternative third-block offset word), and equal bit 10, the name of the programme type in bits 9 to 5 (the North American name in RBDS mode), and the type in bits 15 to 11. A group whose PI was missed is printed only if the group before it had one, and an empty group is never printed. ta, is_music and the decoder identification bit of groups 15B are those of the second block.',
     ['inputs', 'configurations'], 'every combination of received and missed blocks, all block contents, both table modes, every prior condition of the station',
     'Tests look at a few well-received groups; the 16 loss patterns times all types and the one-missed-PI allowance are not enumerated.',
     ['src/groups.cc', 'src/util.hh', 'src/tables.cc'],
     [('common fields', 'src/groups.cc Station::updateAndPrint, Station::decodeBasics'), ('group classification', 'src/groups.cc Group::setBlock, hasPI, getPI, hasType'), ('hexadecimal formatting', 'src/util.hh getHexString, getPrefixedHexString')],
     'Proof for every group and station PI; programme type names are looked up through an abstract table here (their contents are the subject of C25).')
prop('C07', 'PS, programme type name and Long PS are printed complete, in place and current',
     'ps (groups 0A/0B), pty_name (10A) and long_ps (15A) are printed exactly when the group at hand delivered characters of the name and every character up to the end of the name (a 0x0D terminator, or its full length of 8, 8 and 32) has been received in order without a gap; each position then shows the character received there last. A missing block never changes a name, an A/B change of the programme type name starts it afresh, and an incomplete name appears only as partial_ps / partial_long_ps and only with --show-partial. Groups 0A/0B also give ta, is_music and their segment\'s decoder identification bit.',
     ['inputs', 'histories'], 'every buffer content and reception history (by induction over an arbitrary buffer condition), every segment and block contents, every loss pattern',
     'Mixed-up names come from particular orders of segments and lost blocks; tests play a few recordings in order.',
     ['src/groups.cc', 'src/text/rdsstring.cc', 'src/text/radiotext.hh'],
     [('text buffers', 'src/text/rdsstring.cc RDSString::set, getData, isComplete, clear'), ('name groups', 'src/groups.cc Station::decodeType0, decodeType10A, decodeType15A')],
     'Proof: class contract of the text buffer over arbitrary contents for sizes 8 and 32, and the three group decoders against that contract.')
prop('C08', 'RadioText is printed complete, from one message, and as received',
     'radiotext is printed exactly when a group 2A/2B completes a message - all characters up to the 0x0D terminator or the full 64 (2A) or 32 (2B) received in order without a gap - or when a message without terminator was received up to a new start and is identical to the previous such message. It consists of the latest characters received, without trailing blanks. Characters are used only when both the third and fourth block arrived, go to the position given by the segment address, and an A/B change discards the old message. partial_radiotext and rt_ab appear only with --show-partial.',
     ['inputs', 'histories'], 'every buffer condition and A/B state (inductive step), every segment address and block contents, every loss pattern, both group versions',
     'Stale or spliced messages need particular sequences of losses, A/B toggles and version changes; tests cover a few of them.',
     ['src/groups.cc', 'src/text/rdsstring.cc', 'src/text/radiotext.hh'],
     [('RadioText groups', 'src/groups.cc Station::decodeType2'), ('text buffers', 'src/text/rdsstring.cc RDSString')],
     'Proof: class contract of the text buffer over arbitrary contents for sizes 32 and 64, resizing and trimming, and the group decoder against that contract.')
prop('C09', 'Alternative frequency lists contain exactly the frequencies received',
     'An alternative frequency code 1 to 204 is 87.6 to 107.9 MHz in 100 kHz steps, and after code 250 codes 1 to 15 are 153 to 279 kHz and 16 to 135 are 531 to 1602 kHz in 9 kHz steps; every other code is no frequency. A list of n frequencies is announced by code 224+n (up to 25); it is printed once, exactly when n frequencies have been received since, in order, and dropped when a code is invalid or exceeds it. A list of odd length whose remaining pairs all contain its first frequency is printed as method B: ascending pairs as the same programme, descending pairs as regional variants, and only when no frequency is repeated; any other complete list as method A. Incomplete lists appear only with --show-partial.',
     ['inputs', 'histories'], 'every 16-bit code, every list condition (inductive step over lists of up to 25 arbitrary frequencies), every complete list of every length',
     'Tests send a handful of lists; band switching, over-long lists, all 25 lengths and all pairings are not sampled.',
     ['src/util.cc', 'src/groups.cc'],
     [('frequency codes', 'src/util.cc CarrierFrequency'), ('list assembly', 'src/util.cc AltFreqList'), ('printing', 'src/groups.cc Station::decodeType0')],
     'Proof for every code and list condition; method B printing is proved separately for each possible list length.')
prop('C11', 'Received characters are decoded by the RDS code table, one by one',
     'Text received in the basic coding is shown as the concatenation, in order, of the characters the RDS code table (EN 50067 annex E) assigns to its byte values; control codes without a character, 0x00 and the terminator are blanks. UTF-8 texts are shown byte for byte. Removing trailing blanks removes nothing else.',
     ['inputs'], 'all 256 codes, every text of up to 64 characters',
     'Tests exercise the letters that occur in their sample stations, not the whole table or texts of every length.',
     ['src/text/rdsstring.cc', 'src/util.cc'],
     [('code table', 'src/text/rdsstring.cc getRDSCharString'), ('text decoding', 'src/text/rdsstring.cc RDSString::str'), ('trimming', 'src/util.cc rtrim')],
     'Proof: all 256 codes against an independently written table; concatenation over texts of up to 64 arbitrary bytes; rtrim for strings of up to 40 characters (the loop is independent of length). UCS-2 conversion (iconv) is outside the claim.')
prop('C04', 'A station is identified only after three groups with the same PI, and starts afresh',
     'A station is established or changed exactly when the same non-zero PI has been received in three groups in a row that carry a PI (on the main data stream) and it is not the PI currently confirmed. The new station then knows nothing that was received for the old one; until then, and whenever the PI does not change, nothing received is forgotten. Groups without a PI and groups of the higher data streams neither help nor hinder. Every group is decoded once, by the current station, as received.',
     ['inputs', 'histories'], 'every history of received PIs (inductive step over an arbitrary PI history), every group content and loss pattern, all four data streams',
     'Station changes under intermittent reception depend on the interleaving of two PIs and missed first blocks; tests replay a few fixed sequences.',
     ['src/channel.cc', 'src/channel.hh', 'src/groups.cc'],
     [('PI confirmation', 'src/channel.cc CachedPI::update'), ('station change', 'src/channel.cc Channel::processGroup'), ('reset', 'src/channel.cc Channel::resetPI')],
     'Proof by one-step induction over an arbitrary PI history; PI 0x0000 is excluded from the claim (the code reserves it for "none"). "Knows nothing" is checked on a marker in each kind of stored data.')
prop('C19', 'The block error rate is the share of bad blocks in the last twelve groups',
     'With --bler every group line gives bler: the number of missed or corrected blocks among the 48 blocks of the last twelve groups (the present one included; groups before the first count as free of errors), as a percentage rounded to the nearest integer. Without --bler no rate is given.',
     ['inputs', 'histories'], 'every history of error counts in the last twelve groups (inductive step), every loss and error pattern, every printed percentage',
     'A drifting or misweighted average shows only after particular error histories; tests look at one or two values.',
     ['src/channel.cc', 'src/util.hh', 'src/groups.cc'],
     [('averaging', 'src/util.hh RunningAverage'), ('per-group errors', 'src/groups.cc Group::getNumErrors'), ('printing', 'src/groups.cc Station::updateAndPrint')],
     'Proof by one-step induction over exact multiples of 1/4 (the only values that occur), IEEE single precision as executed.')
prop('C20', 'Reception times are those of the group and never go backwards',
     'A group decoded from a signal gets the time at which its buffer was received, minus the time (at 1187.5 bits per second) of the bits that follow it in the buffer; with --timestamp a group from another input that has no time of its own gets the present time. In neither case is the time earlier than that of the group before. Every bit of a buffer is used once and in order, and every group found is decoded once.',
     ['inputs', 'schedules', 'histories'], 'every buffer time, present time and time of the group before; every kept or missing own time',
     'Clock steps and buffer boundaries do not occur in the tests, whose output times are not checked.',
     ['src/channel.cc', 'src/io/bitbuffer.hh', 'src/groups.cc'],
     [('times from bit buffers', 'src/channel.cc Channel::processBits'), ('times of other groups', 'src/channel.cc Channel::processGroup')],
     'Proof for groups from other inputs; for bit buffers all times and bits, but bounded to selected buffer lengths up to 78 bits and positions of the group in them (a buffer cannot hold more than 77 bits).', level='other')
prop('C17', 'Hex groups are read and written without loss',
     'A line of hexadecimal input is one group: blanks mean nothing, a block is received exactly when all its four digits are given and then has their value, and an optional #S1, #S2 or #S3 in front names the data stream; lines of fewer than 16 characters are skipped. Hex output gives the data stream (#S), the four blocks in four upper-case digits each, four dashes for a block not received, and on request the time; empty groups are not printed. A group written as hex is therefore read back with the same blocks and data stream. Feed-through echoes exactly the lines read.',
     ['inputs'], 'every group and loss pattern for output; for input every character in lines of 26 arrangements of blanks and prefixes',
     'The tests read tidy lines; truncated lines, unusual spacing and characters that are no digits are not sampled.',
     ['src/io/input.cc', 'src/io/output.hh', 'src/groups.cc', 'src/util.hh'],
     [('hex input', 'src/io/input.cc readHexGroup'), ('hex output', 'src/io/output.hh printAsHex')],
     'Output and the round-trip lemma: proof for every group. Input: bounded to 26 line patterns of up to 29 characters (blanks, prefixes and line ends fixed per pattern, all other characters arbitrary).', level='other')
prop('C18', 'TEF6686 and ASCII bit input yield exactly the blocks and bits given',
     'TEF6686 input yields one group per R line: blocks 2 to 4 have the values of its digits, a block marked as erroneous is not received (and gives the group no type), and block 1 is the last PI (P line) since the group before; other lines mean nothing. ASCII bit input yields the zeros and ones in order and skips all other characters, up to the end of input. Feed-through echoes exactly what is read.',
     ['inputs'], 'every digit and error mark in sequences of three lines; every sequence of characters up to the next bit',
     'The tests read one clean sample of each format.',
     ['src/io/input.cc'],
     [('TEF6686 input', 'src/io/input.cc readTEFGroup'), ('bit input', 'src/io/input.cc AsciiBitReader::readBit')],
     'Bounded: sequences of three lines in seven patterns with arbitrary digits; up to five characters before the next bit.', level='other')
prop('C22', 'Each channel of a multi-channel signal gets its own samples',
     'For a signal of c channels, channel k of a chunk is made of exactly the samples k, k+c, k+2c, ... of what was read, in order, including the last incomplete chunk, with the reception time of the chunk; a channel that does not exist is refused. One chunk is read at a time and the input ends at the first incomplete one. Feed-through echoes every chunk.',
     ['inputs', 'configurations'], 'every sample value and chunk length for 1, 2, 3, 4 and 7 channels; every chunk size and amount read',
     'Tests use one or two channels with full chunks.',
     ['src/io/input.cc', 'src/io/input.hh'],
     [('de-interleaving', 'src/io/input.cc MPXReader::readChunk'), ('reading', 'src/io/input.cc MPXReader::fillBuffer')],
     'Reading: proof. De-interleaving: bounded to chunks of up to 16 samples and 1, 2, 3, 4 and 7 channels.', level='other')
prop('C05', 'Programme item number and slow labelling codes are those received',
     'prog_item_number and prog_item_started are given exactly when a group 1 had its third and fourth block and the fourth holds a non-zero number whose day is 1 to 31, hour at most 24 and minute at most 59; they are that number, its day (bits 15-11) and its time hh:mm. Group 1A then also gives has_linkage (bit 15 of the third block) and the label of its variant only: the country of the station\'s PI and the extended country code (variant 0), tmc_id (1), language (3), the 11 broadcaster bits (6) or ews (7). Group 1B never gives labels, and a group with a missing block gives none of these fields.',
     ['inputs'], 'every group 1A/1B, all contents of the second, third and fourth block, every loss pattern, every station PI',
     'The tests show one or two well-received groups; the boundary values of day, hour and minute and the eight variants times loss patterns are not enumerated.',
     ['src/groups.cc', 'src/util.cc'], [('group 1', 'src/groups.cc Station::decodeType1'), ('programme item number', 'src/groups.cc decodePIN'), ('time formatting', 'src/util.cc getHoursMinutesString')],
     'Proof for all groups; country and language names are looked up through an abstract injective table.')
prop('C12', 'RadioText Plus tags are the marked parts of the message at hand',
     'For a group of the RadioText Plus application, item_running and item_toggle are bits 3 and 4 of the second block. Each tag received (two when both blocks arrived, one when only the third did, none otherwise) names the content class received and exactly the characters of the last complete RadioText from its start marker, of the length received plus one, without trailing blanks; characters are counted as characters also when they take several bytes. A tag of class 0 (dummy), or one that reaches past the end of the message, is left out. A change of either item flag discards the old message, so that no tag points into it.',
     ['inputs', 'histories'], 'every message (sequence of 1- to 4-byte UTF-8 characters within the buffer), every start, length and class, every loss pattern, every previous item state',
     'Off-by-one and multi-byte errors show only for particular messages and marker positions; tests have a handful of them.',
     ['src/groups.cc', 'src/text/rdsstring.cc', 'src/text/radiotext.hh'], [('tag extraction', 'src/groups.cc parseRadioTextPlus'), ('part of a message', 'src/text/rdsstring.cc RDSString::getLastCompleteString(start, length), charlen')],
     'Proof: the parser against the contract of the text buffer, and the contract of getLastCompleteString(start, length) and charlen over arbitrary strings of up to 64 characters.')
prop('C16', 'Data of other networks go to the network they were sent for',
     'For a group 14 whose fourth block was received, other_network gives the PI in that block, the TP flag of bit 4 of the second block and, in 14B, the TA flag of bit 3. In 14A with its third block, exactly the field of the variant follows: characters of the name of that network (0-3; ps given when complete, per network, latest characters), alternative frequencies (4; given once per complete list of that network), mapped frequencies 87.6-107.9 MHz (5-9), linkage (12), programme type and TA (13), programme item number (14), broadcaster data (15). Names and frequencies of different networks never mix. Without the fourth block nothing is given; without the third only PI and TP.',
     ['inputs', 'histories'], 'every group 14A/14B, all contents and loss patterns, every network PI, every condition of that network\'s name and list; other networks already known (proved for fixed pairs of PIs)',
     'Mixing needs several networks with interleaved segments and particular losses; tests play one network in order.',
     ['src/groups.cc', 'src/freq.hh', 'src/text/rdsstring.cc'], [('other networks', 'src/groups.cc Station::decodeType14'), ('frequency lists', 'src/groups.cc AltFreqList'), ('text buffers', 'src/text/rdsstring.cc RDSString::set, isComplete')],
     'Proof for all groups with arbitrary network PI when that network is the only one known; separation from another known network is proved for fixed pairs of PIs (std::map keyed by PI is trusted for the others).')
prop('C24', 'Every group reaches the decoder of its type or its assigned application, unaltered',
     'A group goes to exactly one decoder: 0, 1, 2, 3A, 4A, 10A, 14 and 15B to their own, any other type to the open data application assigned to it by 3A if there is one, otherwise to its default (5, 6, 7A, 8A, 9A, 15A) or to unknown_oda. 3A assigns the application for exactly its group type. RadioText Plus works on RadioText and its enhanced form on enhanced RadioText; data of unknown applications are given as received, with ---- for missing blocks. Transparent data (5), in-house data (6), the DAB cross reference (mode, frequency = 16 kHz times 18 bits, channel name, ensemble) and enhanced RadioText are those of the received blocks, at the address received.',
     ['inputs', 'histories'], 'all 65536 second blocks, every loss pattern, every assignment of an application to a group type, all block contents, every prior condition of the transparent data buffer',
     'The tests contain a few applications on a few group types; wrong routing or stale assignments show for particular combinations only.',
     ['src/groups.cc', 'src/text/rdsstring.cc'], [('routing', 'src/groups.cc Station::updateAndPrint'), ('assignment', 'src/groups.cc Station::decodeType3A'), ('open data', 'src/groups.cc Station::decodeODAGroup, parseDAB, parseEnhancedRT'), ('transparent and in-house data', 'src/groups.cc Station::decodeType5, decodeType6')],
     'Proof; application names are looked up through an abstract injective table.')
prop('C10', 'Clock time is the broadcast date and time, in local time, on any computer',
     'clock_time is given exactly when the third and fourth block of a group 4A were received, the hour is at most 23, the minute at most 59 and the local offset less than 15 hours (and the date is not before 1 March 1900). For every date up to 28 February 2100 it is the Gregorian date and the time of day that the modified Julian day, the UTC time and the local time offset amount to - crossing midnight, months and years as needed - written YYYY-MM-DDThh:mm:00 followed by Z when the offset is zero and by the signed offset hh:mm otherwise. It does not depend on the time zone of the computer.',
     ['inputs', 'configurations'], 'all 2^17 day numbers, all hours, minutes, offsets and signs, every loss pattern; computer time zone (native replay)',
     'Wrong dates show on particular days (month ends, leap years, offsets across midnight): 73,000 days times 1,440 minutes times 63 offsets.',
     ['src/groups.cc'], [('clock time', 'src/groups.cc Station::decodeType4A')],
     'Proof over all days, times and offsets, including the floating-point date conversion (bit-precise); the days are split into eight ranges.')

prop('C14', 'A TMC message is what its groups say',
     'A single-group message has the event, extent, direction, location and duration of its group and the diversion bit. Parts of a multi-group message are collected by their place until the last one; the message is given then if its first group was received, and everything is forgotten afterwards. The 28 freeform bits of the second and following parts, as far as they were received without a gap, are read as fields of the standard widths, first bit first, up to the end mark or until they do not suffice. Each field changes exactly what it stands for: duration, the eight control codes (urgency up and down, directionality, duration type, diversion, extent +8 and +16), affected length, speed limit times 5, quantifier (only for the latest event, once, and only of the width of its type), supplementary information, start, stop, additional event, detailed diversion; other fields change nothing.',
     ['inputs', 'histories'], 'every number and contents of groups, every order and loss, all freeform bits; every condition of a message before each field',
     'There are 2^140 bit patterns of a five-group message; fields may straddle groups, and losses cut them anywhere. The tests hold a few messages.',
     ['src/tmc/tmc.cc', 'src/tmc/tmc.hh'], [('assembly', 'src/tmc/tmc.cc Message::pushMulti, pushSingle, clear'), ('freeform fields', 'src/tmc/tmc.cc getFreeformFields, popBits'), ('contents', 'src/tmc/tmc.cc Message::decodeMulti')],
     'Proof: assembly for any state; popBits for any queue; field separation by induction over the position in the bits (a walk of two fields from any position); contents by one field after any earlier condition of the scalar members, and ten pairs of fields for those that depend on events and lists. The event table is abstract. Sequences of more than two list-type fields are covered by the induction argument only for the scalar members; randomised native runs of whole messages cover the rest.', level='other')
prop('C15', 'TMC service information, tuning information and encryption are followed as sent',
     'System information is given as received per variant (encryption, location table, AF indicator and scope; service, gap and country code; extended country code and country), and user groups are ignored before the first variant 0. An encryption administration group gives and keeps service, encryption identifier and location table. Tuning information gives the provider name when complete, and the networks, frequencies, service, table and scope received. Message groups of an encrypted service are ignored before the encryption identifier is known; a message of it is decrypted (XOR with the shifted mask, then rotate left) exactly when a key of that identifier is known. A group with another continuity index starts a new message; a complete message is given once; a single-group message does not disturb one in progress.',
     ['inputs', 'histories', 'configurations'], 'every system and user group (37 bits), every prior state of the service, every key',
     'Depends on history (initialisation, encryption state, message in progress) times all contents; the tests follow a few recorded streams.',
     ['src/tmc/tmc.cc', 'src/tmc/tmc.hh'], [('service', 'src/tmc/tmc.cc TMCService::receiveSystemGroup, receiveUserGroup'), ('decryption', 'src/tmc/tmc.cc Message::decrypt, rotl16')],
     'Proof over all groups and states; message objects, the text buffer and frequency lists by their contracts; location tables absent (their lookup is not covered).')
prop('C26', 'TMC messages are written out faithfully',
     'The JSON of a complete message lists every event, supplementary and diversion code; gives the location exactly when it is not (any more) encrypted and the encrypted one when it was; direction, extent with sign, urgency, speed limit; start and stop times as text (quarter hours, hours of following days, days of the month, middle or end of a month); update class of the first event; and a description of the known events, with the quantifier in place of (Q) formatted by its type (numbers, metres, percent, km/h, minutes and hours, degrees, time of day, tonnes, metres, millimetres, frequencies), followed by the known supplementary texts, each starting with a capital letter.',
     ['inputs'], 'all 256 times, all quantifier values of all 13 types, all values of the scalar members, nine shapes of event/supplementary/diversion lists',
     'The tests show a few times and quantifiers of the more than 2000 possible ones.',
     ['src/tmc/tmc.cc', 'src/util.cc'], [('message output', 'src/tmc/tmc.cc Message::json'), ('times', 'src/tmc/tmc.cc getTimeString'), ('quantifiers', 'src/tmc/tmc.cc getDescriptionWithQuantifier')],
     'Times and quantifiers: every value. Message output: every value of the members, with lists of at most two events, one supplementary code and one diversion code (bounded); std::regex is a model.', level='other')
