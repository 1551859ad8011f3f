import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    P.append(d)
K='keychain/src/'
NOT='keychain, keychain-c and secp256k1_bip32 have no tests at all upstream; '
p('C01','Sealed data opens with its own password and with nothing else',
 'For every payload (the empty one included) and every password, opening what sealing produced under the same password returns exactly that payload. Under any other password (trailing NUL characters do not tell passwords apart, an HMAC trait), or after any bit of the sealed bytes is changed or bytes are cut off or added, opening fails: with "not enough data" when fewer than the 60 metadata bytes are present, and otherwise with "decryption failed" (shown as "wrong password" by the manager). A failed opening never returns data and never crashes.',
 ['inputs','histories'],'all payloads of any length, all passwords (empty, long, non-ASCII), all tamperings of the sealed bytes',
 NOT+'and the space of payloads x passwords x tamperings is unbounded.',
 [K+'crypt.rs'],[('PBKDF2 key + ChaCha20-Poly1305 tag','keychain/src/crypt.rs encrypt/decrypt')],
 observe=['crypt::encrypt','crypt::decrypt','KeychainManager::keychain_from_data'])
p('C02','Every sealing and every new mnemonic uses fresh, full-strength randomness',
 'No two sealings in any history (creating keychain data, changing a password, adding a network, direct sealing) share a salt or share a nonce, and all 32 salt bytes and 12 nonce bytes come from the entropy source. Every generated mnemonic encodes entropy of the full size the manager requires, all of it newly drawn and never repeated.',
 ['histories','configurations'],'all histories of sealing and generating operations over any number of managers, networks, languages and repeated identical arguments',
 NOT+'one sample cannot show that nothing is constant or reused across a history.',
 [K+'crypt.rs',K+'entropy.rs',K+'manager.rs',K+'mnemonic.rs','bip39/src/bip39.rs'],
 [('salt and nonce filled from the entropy source on every call','keychain/src/crypt.rs encrypt'),('Entropy::generate over the whole array','bip39/src/bip39.rs, keychain/src/mnemonic.rs generate_entropy')],
 observe=['crypt::encrypt','KeychainManager::{keychain_data_from_seed,keychain_data_from_mnemonic,change_password,add_network,generate_mnemonic}'])
p('C03','The stored keychain format is stable and old data keeps opening',
 'Stored keychain data is salt(32) | nonce(12) | tag(16) | ciphertext, where a 32-byte key from PBKDF2-HMAC-SHA512 (19162 rounds) drives ChaCha20-Poly1305 over a JSON payload {version, base64 data} whose version 1 content is the key list and version 2 content is seed, mnemonic, dictionary and key list. Data laid out this way, in either version and whoever wrote it, opens to exactly the keys and secrets it holds, and everything the library writes is laid out this way as version 2 (re-encryption alone keeps its payload). Any other decrypted content (unknown version, broken JSON or base64, missing key list, unknown dictionary) is refused as a data error, never misread and never a crash.',
 ['inputs','histories'],'all documents of both versions (any subset of networks incl. unknown ones, any secret fields, field orders, extra fields) and all malformed payloads',
 NOT+'no stored fixture of any version is ever opened.',
 [K+'data.rs',K+'crypt.rs',K+'manager.rs',K+'mnemonic.rs'],[('VersionedData / WalletDataV1 / WalletDataV2 serde schema','keychain/src/data.rs'),('container layout constants','keychain/src/crypt.rs')],
 observe=['KeychainManager::keychain_from_data','KeychainManager::get_keys_data','KeychainManager::retrieve_mnemonic','crypt::decrypt'])
p('C04','New keychain data holds exactly the manager\'s networks, keyed by the secret only',
 'Keychain data created from a 64-byte seed or from an accepted mnemonic opens to a keychain with exactly the networks of the manager that created it, and retains the secret it was created from (and nothing else) for later use. The key of each network depends only on the seed and the network: not on the password, the manager\'s other networks, earlier calls or time, and creating from a mnemonic gives the same keys as creating from that mnemonic\'s seed. A seed of any other length is refused with its length and nothing is created.',
 ['inputs','configurations','histories'],'all seeds, accepted mnemonics in all languages, passwords, network subsets, and call histories',
 NOT+'the relation between two creations in different configurations is never sampled.',
 [K+'manager.rs',K+'networks/bitcoin/factory.rs',K+'networks/ethereum/factory.rs',K+'networks/cardano/factory.rs',K+'mnemonic.rs'],
 [('new_keychain_data maps every factory over one seed','keychain/src/manager.rs'),('seed_from_data','keychain/src/manager.rs')],
 observe=['KeychainManager::keychain_data_from_seed','KeychainManager::keychain_data_from_mnemonic','KeychainManager::keychain_from_data','KeychainManager::get_keys_data'])
p('C05','Changing the password changes nothing but the password',
 'After a successful password change the new data opens only with the new password and holds exactly the same keys and the same stored secret as before, including networks this manager does not support and data of the old version; the original data still opens with the old password. With a wrong old password, or damaged data, the change fails with the corresponding error and produces nothing.',
 ['histories','inputs'],'all histories of create / add network / change password over any passwords (equal, empty, long, non-ASCII), managers and data versions',
 NOT+'it is a relation over sequences of operations.',
 [K+'manager.rs',K+'crypt.rs'],[('change_password = decrypt then encrypt of the same bytes','keychain/src/manager.rs')],
 observe=['KeychainManager::change_password','KeychainManager::keychain_from_data','KeychainManager::get_keys_data','KeychainManager::retrieve_mnemonic'])
p('C06','Adding a network adds exactly that network\'s key',
 'When adding a network succeeds, the result holds every key and secret the input held, unchanged, plus the added network\'s key, which equals the key that network would have had if it had been present when the keychain was created; the password stays the same. It fails, producing nothing, when the manager does not support the network, the network is already present, no seed or mnemonic is stored, the stored mnemonic has not the word count this manager requires, or the data cannot be opened with the password. An existing key is never replaced.',
 ['histories','configurations','inputs'],'all histories over managers with different network sets, both kinds of stored secret, both data versions, and all networks (unknown ones included)',
 NOT+'it is a relation over sequences of operations in several configurations.',
 [K+'manager.rs',K+'data.rs'],[('add_network','keychain/src/manager.rs'),('seed_from_data','keychain/src/manager.rs')],
 observe=['KeychainManager::add_network','KeychainManager::get_keys_data','KeychainManager::keychain_from_data','KeychainManager::retrieve_mnemonic'])
p('C07','Opening yields exactly the stored networks the manager supports',
 'Opening keychain data gives a keychain whose networks are exactly those both stored in the data and supported by the opening manager, each behaving as the key stored for it; stored networks the manager does not know are skipped, and are still there for a manager that does. If a stored key of a supported network is damaged (wrong length, failed checksum, invalid bits) opening fails with a key error naming that network. Backup functions return exactly the stored keys and the stored mnemonic with its language, and report a missing mnemonic as not saved.',
 ['histories','configurations','inputs'],'all data x manager configurations, including foreign networks and damaged key material',
 NOT+'no keychain is ever opened by a test.',
 [K+'manager.rs',K+'keychain.rs',K+'data.rs',K+'networks/cardano/key.rs','secp256k1_bip32/src/private.rs'],[('keychain_from_data filter_map over factories','keychain/src/manager.rs'),('Keychain::new','keychain/src/keychain.rs')],
 observe=['KeychainManager::keychain_from_data','Keychain::{has_network,networks,pub_key,sign}','KeychainManager::get_keys_data','KeychainManager::retrieve_mnemonic'])
p('C08','Bitcoin and Ethereum keys follow BIP-32 exactly',
 'For every 64-byte seed and every accepted path, the Bitcoin and Ethereum public key is the uncompressed 65-byte secp256k1 key that BIP-32 defines: master key from HMAC-SHA512 keyed "Bitcoin seed", then one private child derivation per path component, hardened exactly for indices of 2^31 and above. The result is a function of seed, network and path alone.',
 ['inputs'],'all seeds and all five-component paths up to and including the boundary indices',
 NOT+'vectors would cover a handful of paths; leading-zero scalars, boundary indices and rare carries need a formula.',
 ['secp256k1_bip32/src/private.rs','secp256k1_bip32/src/public.rs',K+'networks/ethereum/key.rs',K+'networks/bitcoin/key.rs'],[('XPrv::from_seed / derive / public','secp256k1_bip32/src/private.rs')],
 observe=['Keychain::pub_key','XPrv::{from_seed,derive,public,serialize}'])
p('C09','Cardano keys follow the extended Ed25519 BIP-32 (V2) derivation exactly',
 'For every 64-byte seed and accepted path, the Cardano public key (64 bytes: point and chain code) is the one given by: root = clamped SHA-512 of the first 32 seed bytes with the third-highest bit cleared, chain code = last 32 seed bytes, then the V2 private derivation for 44\', 1815\', account\', change, address. The result is a function of seed and path alone.',
 ['inputs'],'all seeds and all accepted paths up to and including the boundary indices',
 NOT+'no Cardano key is derived by any test.',
 [K+'networks/cardano/key.rs',K+'networks/cardano/factory.rs'],[('data_from_seed, from_data, derive_private','keychain/src/networks/cardano/key.rs')],
 observe=['Keychain::pub_key','cardano::KeyFactory'])
p('C10','A network key serves exactly the paths that belong to its network',
 'Public key, sign and verify accept a path exactly when its coin is the network\'s own, its purpose is 44\' (Bitcoin: any purpose), its account is hardened, its change is 0 or 1 and its address is not hardened; the three operations agree on every path. Any other path is refused with a key-path error that names a component actually at fault and its value, and a network absent from the keychain is refused as missing, so no network\'s key can be reached through another network\'s path.',
 ['inputs','configurations'],'all networks x all five-component 32-bit paths x all three operations',
 NOT+'the path space is 2^160 per network; only its classes and boundaries can be enumerated, by a model.',
 [K+'networks/bitcoin/key.rs',K+'networks/ethereum/key.rs',K+'networks/cardano/key.rs',K+'keychain.rs'],[('derive_private guards','keychain/src/networks/*/key.rs'),('Keychain::_pk','keychain/src/keychain.rs')],
 observe=['Keychain::{pub_key,sign,verify}'])
p('C11','Signatures verify for exactly the data, path and key that made them',
 'Signing is deterministic (RFC 6979 over Keccak-256 with low s for Bitcoin/Ethereum, giving r|s|recovery id; extended Ed25519 for Cardano) and a signature is valid for the public key of the same network and path; the recovery id recovers that key. Verify returns true for what sign returned (and for its 64-byte r|s form), and never true once the data, the path, the key or any bit of the signature has been changed; the one exception, inherent in ECDSA, is the twin signature r|n-s of the same data, path and key (with the other recovery id in the 65-byte form). A signature of any other length is refused as an invalid signature size without a crash.',
 ['inputs','histories'],'all messages of any length, all keys, paths, and all altered or malformed signatures',
 NOT+'nothing is ever signed or verified by a test.',
 ['secp256k1_bip32/src/private.rs','secp256k1_bip32/src/public.rs',K+'networks/cardano/key.rs',K+'networks/ethereum/key.rs',K+'networks/bitcoin/key.rs',K+'keychain.rs'],[('XPrv::sign / XPub::verify','secp256k1_bip32/src'),('Cardano sign / verify','keychain/src/networks/cardano/key.rs')],
 observe=['Keychain::{sign,verify}','XPrv::sign','XPub::verify'])
p('C12','Key path text parses totally and round-trips',
 'Parsing a key path string either yields the five components it spells (m/purpose/coin/account/change/address, decimal, a trailing apostrophe adding 2^31, blanks around components ignored) or an error that names the fault; it never crashes or wraps, in particular for an apostrophe on a number of 2^31 or more, numbers of 2^32 or more, empty components and arbitrary Unicode. Printing a path and parsing it back gives the same components, and parsing a printed path and printing it again gives the same text.',
 ['inputs'],'all strings, and all 2^160 five-component paths',
 NOT+'no test parses a key path.',
 [K+'key_path.rs'],[('GenericKeyPath::from / parse_int / print_int','keychain/src/key_path.rs')],
 observe=['GenericKeyPath::from','GenericKeyPath::to_string','keypath_from_string'])
p('C13','Key path constructors build their network\'s path or name the bad argument',
 'For every argument combination, a network key path constructor (Bitcoin BIP-44/49/84 for mainnet and testnet, Ethereum standard and Metamask style, Cardano) either returns the path with that purpose and coin, the account hardened, and change and address as given, or refuses: account or address of 2^31 or more, or change other than 0 and 1, with an error carrying the offending value. Every mainnet path a constructor returns is accepted by its network\'s keys.',
 ['inputs'],'all 32-bit argument triples for each constructor',
 NOT+'boundary arguments are never constructed.',
 [K+'networks/bitcoin/key_path.rs',K+'networks/ethereum/key_path.rs',K+'networks/cardano/key_path.rs'],[('is_valid and constructors','keychain/src/networks/*/key_path.rs')],
 observe=['bitcoin::KeyPath::{bip44,bip49,bip84}','ethereum::KeyPath::{new,new_metamask}','cardano::KeyPath::new','keypath_*_new* in C'])
p('C14','Entropy and mnemonic are a checksummed bijection in every size and language',
 'For each of the six sizes, entropy maps to the BIP-39 words (its bits followed by the leading SHA-256 bits, cut into 11-bit indices) and back to itself, in every language, and a mnemonic made from entropy is accepted by the phrase parser. Recovering entropy from words succeeds exactly when the checksum bits match, and otherwise reports an invalid checksum. Entropy of any other size and phrases of any other word count are refused with the offending size.',
 ['inputs','configurations'],'all entropies of 96..256 bits, all index sequences, all eight languages',
 'The vectors cover two languages, three sizes and only valid phrases; 9, 15 and 21 words, the other six languages and checksum mismatches are never exercised.',
 ['bip39/src/bip39.rs','bip39/src/util/bits.rs'],[('Entropy::to_mnemonics / from_mnemonics / checksum','bip39/src/bip39.rs'),('Type tables','bip39/src/bip39.rs')],
 observe=['Entropy::{from_slice,generate,checksum,to_mnemonics,from_mnemonics}','Mnemonics::{from_mnemonics,from_string,to_string}','KeychainManager::generate_mnemonic'])
p('C15','A phrase is accepted only as spelled and gives the BIP-39 seed',
 'A phrase is accepted exactly when splitting it on single spaces gives 9, 12, 15, 18, 21 or 24 words that all occur in the chosen dictionary (the manager further requires exactly the word count of its required seed size and otherwise reports too short or too long with both counts); a wrong word or count is reported as such. The seed of an accepted phrase is PBKDF2-HMAC-SHA512 of the phrase with salt "mnemonic" followed by the passphrase, 2048 rounds, 64 bytes, for every language and passphrase. A mnemonic generated by a manager is accepted by the same manager and language.',
 ['inputs','configurations'],'all phrases, dictionaries, passphrases and manager configurations',
 'The vectors only hold valid English and Japanese phrases with one passphrase each; the manager\'s import path has no test.',
 ['bip39/src/bip39.rs',K+'mnemonic.rs',K+'manager.rs'],[('Mnemonics::from_string, Seed::from_mnemonic_string','bip39/src/bip39.rs'),('seed_from_mnemonic','keychain/src/mnemonic.rs')],
 observe=['MnemonicString::new','Seed::from_mnemonic_string','KeychainManager::{keychain_data_from_mnemonic,generate_mnemonic}'])
p('C16','Every dictionary is the standard list and looks words up both ways',
 'Each of the eight dictionaries is the official BIP-39 list: 2048 distinct, NFKD-normalised words without separators, in the standard order, selected by the right language. Looking up the word of every index below 2048 and the index of that word are inverse; any other word is reported as not found, and an index of 2048 or more is refused rather than read out of bounds.',
 ['inputs','configurations'],'all 8 x 2048 entries, all other words, all 16-bit indices, all language selectors',
 'Four English entries are looked up; the other languages only through the words that occur in the Japanese vectors.',
 ['bip39/src/bip39.rs','bip39/src/dicts/bip39_english.txt','bip39/src/dicts/bip39_french.txt','bip39/src/dicts/bip39_japanese.txt','bip39/src/dicts/bip39_korean.txt','bip39/src/dicts/bip39_chinese_simplified.txt','bip39/src/dicts/bip39_chinese_traditional.txt','bip39/src/dicts/bip39_italian.txt','bip39/src/dicts/bip39_spanish.txt',K+'mnemonic.rs'],
 [('DefaultDictionary lookup_mnemonic / lookup_word','bip39/src/bip39.rs'),('Language::to_dict','keychain/src/mnemonic.rs')],
 observe=['dictionary::Language::{lookup_mnemonic,lookup_word}','KeychainManager::generate_mnemonic'])
p('C17','Packing by 11 bits is lossless at every alignment',
 'Writing any sequence of 11-bit values produces exactly their concatenated bits, padded with zero bits to a whole byte, and reading those bytes back returns the same values. The reader announces exactly the number of whole 11-bit values left before every read, and every announced read succeeds.',
 ['inputs','histories'],'all sequences of 11-bit values and all byte buffers, at all eight bit alignments',
 'One fixed buffer is read; writing is only exercised through whole phrases.',
 ['bip39/src/util/bits.rs'],[('eight-state reader and writer','bip39/src/util/bits.rs')],
 observe=['util::bits::BitWriterBy11','util::bits::BitReaderBy11'])
p('C18','The C interface reports the Rust outcome faithfully, one output per call',
 'Every C call returns true and writes only its result, equal to what the Rust interface gives for the same arguments, or returns false and writes only the error, whose code identifies the Rust error variant and whose message is the Rust error text. Invalid handles and non-UTF-8 strings, and any Rust panic, come back as a false result with the panic code, never as a crash or an unwound caller. An empty buffer given as a null pointer with length zero is treated as empty.',
 ['inputs','histories'],'all C functions x all arguments, including invalid handles, null/empty buffers, non-UTF-8 strings and failing calls, in any order',
 NOT+'the C interface is only compiled.',
 ['keychain-c/src/manager.rs','keychain-c/src/keychain_c.rs','keychain-c/src/error.rs','keychain-c/src/backup.rs','keychain-c/src/key_path.rs','keychain-c/src/bitcoin.rs','keychain-c/src/ethereum.rs','keychain-c/src/cardano.rs','keychain-c/src/network.rs','keychain-c/src/utils/panic.rs','keychain-c/src/utils/result.rs','keychain-c/src/utils/string.rs','keychain-c/src/utils/data.rs'],
 [('handle_exception_result + CResult::response','keychain-c/src/utils'),('ErrorPtr::new code table','keychain-c/src/error.rs')],
 observe=['all extern "C" functions of keychain-c'])
p('C19','Every C object is released exactly once, completely and with its own layout',
 'Each object a C call hands out (manager, keychain, data, string, network list, key backup, mnemonic info, error) is fully released by its own delete function, every block with the size and alignment it was allocated with, so a history in which everything was deleted leaves no memory behind. Deleting clears the handle, and deleting a cleared or null handle or string does nothing. A failed call leaves nothing allocated except the error it reports.',
 ['histories'],'all call histories over all object kinds, successful and failing, with repeated deletes and empty objects',
 NOT+'allocation layout and leaks are invisible to a functional test.',
 ['keychain-c/src/utils/data.rs','keychain-c/src/utils/string.rs','keychain-c/src/network.rs','keychain-c/src/backup.rs','keychain-c/src/error.rs','keychain-c/src/manager.rs','keychain-c/src/keychain_c.rs'],
 [('Ptr::free implementations','keychain-c/src'),('into_boxed_slice + forget hand-over','keychain-c/src/utils/data.rs')],
 observe=['delete_* functions, observed by a ledger of the process allocator'])
p('C20','Entropy and seeds are wiped when dropped',
 'When a BIP-39 entropy of any size or a seed is dropped, the memory that held its secret bytes no longer contains them, in debug and in optimised builds alike. Cloning or reading a secret before does not prevent this, and each copy is wiped by its own drop.',
 ['histories','configurations'],'all sizes of entropy, seeds, clones, in any drop order, in both build profiles',
 'No test looks at memory after a drop, and the optimiser may remove a plain overwrite.',
 ['bip39/src/bip39.rs','bip39/src/util/securemem.rs'],[('Drop for Entropy / Seed','bip39/src/bip39.rs'),('securemem::zero','bip39/src/util/securemem.rs')],
 observe=['drop of Box<Entropy>, Box<Seed>, observed when the block reaches the allocator'])
p('C21','Serialised extended keys round-trip and damage is always refused',
 'A serialised secp256k1 extended private key (77 bytes: depth, parent fingerprint, child index, chain code, key, double-SHA-256 checksum) loads to a key that serialises to the same bytes and derives the same children, and a derived child carries depth + 1, the derivation index and the fingerprint of its parent\'s public key. Any change of any byte, any other length, and any key outside the group order is refused. Deriving below the maximal depth 255 is refused as too deep rather than wrapping.',
 ['inputs','histories'],'all extended keys, all derivation chains up to depth 255, all single and multiple byte changes',
 NOT+'no extended key is ever serialised by a test.',
 ['secp256k1_bip32/src/private.rs'],[('from_data / serialize / derive','secp256k1_bip32/src/private.rs')],
 observe=['XPrv::{from_data,serialize,derive,from_seed}'])
p('C22','A manager serves exactly the networks it was built for',
 'A manager built from a list of networks or key factories supports exactly those (unknown networks in a list are ignored, duplicates and order do not matter), and is refused when that leaves none or when their seed-size ranges leave no room. Its required entropy is the largest of the minimum sizes of its networks: 128 bits with Bitcoin or Ethereum, 96 bits for Cardano alone, so generated mnemonics have exactly 12 or 9 words.',
 ['configurations'],'all lists of networks and all sets of custom factories with arbitrary seed-size ranges',
 NOT+'no manager is ever built by a test.',
 [K+'manager.rs',K+'networks/mod.rs',K+'network.rs',K+'key_factory.rs'],[('with_networks / with_factory_objs / calculate_seed_size','keychain/src/manager.rs'),('all_networks','keychain/src/networks/mod.rs')],
 observe=['KeychainManager::{new,with_networks,with_factories,has_network,get_key_factory,generate_mnemonic}','Network::all'])
p('C23','Concurrent and repeated calls do not influence each other',
 'Any number of threads may use the same manager and keychains at once: every call returns what the same call returns alone, whatever runs before, between or beside it, and randomness is never shared between two concurrent calls. Inputs are never modified, and a failing or panicking call leaves the manager and keychains fully usable.',
 ['schedules','histories'],'all interleavings of calls from several threads on shared managers and keychains, and all call histories',
 NOT+'a single-threaded test samples no interleaving.',
 [K+'manager.rs',K+'keychain.rs',K+'entropy.rs','keychain-c/src/manager.rs','keychain-c/src/keychain_c.rs'],[('calls are functions of their arguments; OsEntropy behind a mutex','keychain/src/entropy.rs')],
 observe=['C interface called from several threads','KeychainManager with custom factories that pause inside a call'])
p('C24','Hexadecimal encoding is lossless and decoding rejects foreign symbols',
 'Decoding the encoding of any bytes returns those bytes; encoding uses two lower-case digits per byte. Decoding accepts upper and lower case and ignores blanks, tabs and line ends anywhere, and any other byte is refused with its exact byte position.',
 ['inputs'],'all byte strings and all texts',
 'Two four-byte vectors are tested; blanks between the digits of one byte, upper case and error positions never.',
 ['bip39/src/util/hex.rs'],[('encode / decode','bip39/src/util/hex.rs')],observe=['util::hex::encode','util::hex::decode'])
p('C25','No input makes a public call panic',
 'Every call of the Rust interface with any byte strings, texts, numbers, networks and key paths, including truncated or hostile keychain data under a correct password, oversized or empty key data and signatures, and arbitrary Unicode text, returns a value or an error; none panics, overflows or aborts. (Panics which the documentation announces, such as printing a hand-made word index above 2047, do not count.)',
 ['inputs','histories'],'all inputs to all public functions of keychain, bip39 and secp256k1_bip32',
 NOT+'totality is a statement about every input.',
 [K+'manager.rs',K+'keychain.rs',K+'key_path.rs',K+'crypt.rs',K+'data.rs',K+'networks/cardano/key.rs','secp256k1_bip32/src/private.rs','secp256k1_bip32/src/public.rs','bip39/src/bip39.rs','bip39/src/util/hex.rs'],
 [('length and range guards before slicing and arithmetic','throughout')],observe=['all public functions returning Result'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
