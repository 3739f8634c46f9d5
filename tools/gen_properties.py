#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               observe_at=observe or ["stdout, stderr and exit status of the ripcalc program"],
                               hook_needed=None)))
S = "src/"
p("C01", "Address text is read exactly as written",
  "A well-formed dotted-decimal IPv4 address (four decimal numbers 0-255) or IPv6 address (hexadecimal groups, at most one ::) given on the command line is understood as exactly the address the text denotes, whatever the values, digit counts, leading zeros and position of ::. Text that is not such an address (wrong number of parts, empty parts, a part out of range, stray characters such as a sign, more than one ::, a dangling single colon) is refused with an error message on standard error, no result and exit status 1.",
  ["inputs"], "every address text of either family, well-formed or malformed",
  "The unit tests parse a few dozen literal strings; the meaning of all 2^32 / 2^128 addresses and all malformed neighbours of a valid address cannot be sampled.",
  [S+"addr.rs", S+"cmds/mod.rs"],
  [("Ipv4Address::from_str", "src/addr.rs"), ("Ipv6Address::from_str", "src/addr.rs"), ("parse_addr / parse_netspec", "src/cmds/mod.rs")])
p("C02", "Printed addresses denote the address they stand for",
  "Every address the program prints is valid text of its family - canonical dotted decimal for IPv4; lower-case hexadecimal without leading zeros, abbreviated with :: at most once and then at the leftmost longest run of zero groups, for IPv6 - and denotes exactly the address meant. Giving a printed address back to the program as an address is always accepted and yields the same address.",
  ["inputs"], "every IPv4 and IPv6 address value",
  "Tests print a handful of addresses; the :: abbreviation depends on the position and length of all runs of zero groups, and the round trip relates two functions over 2^128 values.",
  [S+"addr.rs"], [("Display for Ipv4Address/Ipv6Address", "src/addr.rs"), ("FromStr for Ipv4Address/Ipv6Address", "src/addr.rs")])
p("C03", "All ways of writing a network mean the same network",
  "ADDRESS/PREFIX, ADDRESS/MASK, ADDRESS/-WILDCARD and ADDRESS/-N (N host bits) describe the network whose mask is respectively PREFIX leading one bits, the mask itself, the complement of the wildcard, and all but N leading one bits; specifications that denote the same mask produce identical output in every mode. A prefix or host-bit count larger than the address width, a mask of the other family, or text that is not a network specification is refused with an error and exit status 1, and no network is printed for it.",
  ["inputs"], "every address, prefix 0-32/0-128, mask, wildcard and malformed suffix",
  "Only single examples of each notation are covered; equality of notations quantifies over all masks and prefixes.",
  [S+"cmds/mod.rs", S+"net.rs", S+"cidr.rs"], [("parse_netspec", "src/cmds/mod.rs"), ("IpNetwork::new_with_mask / new_with_prefix", "src/net.rs")])
p("C04", "Show mode states the true facts of a network",
  "For every address and mask, including masks whose one bits are not contiguous, show mode prints the address, the mask (with its prefix length exactly when the mask is a prefix mask), the wildcard (complement of the mask), the network address (address AND mask, with /PREFIX exactly when the mask is a prefix mask), and the lowest and highest host and the broadcast address, being the second lowest, second highest and highest of the addresses that agree with the network address on all mask bits. Hosts/Net is two less than the number of such addresses; with fewer than two host bits 'no hosts' (and 'no hosts/net') and with none 'no broadcast' is printed instead. Each fact stands on its own line, in that order, and several networks are separated by one empty line.",
  ["inputs"], "every address and every mask of both families, and every short list of networks",
  "The tests check first/last host and broadcast for a few networks; the output itself (what users read) is not tested at all, and non-contiguous masks number 2^32/2^128.",
  [S+"cmds/show_net.rs", S+"net.rs", S+"bit_manip.rs", S+"console.rs"],
  [("output_network", "src/cmds/show_net.rs"), ("first_host_addr/last_host_addr/broadcast_addr/address_count/host_count", "src/net.rs"), ("unravel_address/weave_address", "src/bit_manip.rs"), ("write_in_color", "src/console.rs")])
p("C05", "Binary column and class label agree with the address",
  "The binary column next to every address in show, split and resize output is exactly the bit pattern of that address, most significant bit first, in groups of eight bits separated by dots for IPv4 and of sixteen bits separated by colons for IPv6. An IPv4 network is labelled Class A, B, C, D (multicast) or E (reserved) precisely when its leading bits 0, 10, 110, 1110 or 1111 are those of that class and all of these leading bits are fixed by the mask; otherwise, and for IPv6, no class is printed. The label stands on the Hosts/Net line, so it appears for networks with at least two host bits.",
  ["inputs"], "every address and mask of both families",
  "No test looks at the binary column or the class label; both are functions of all address and mask bits.",
  [S+"cmds/show_net.rs", S+"bit_manip.rs"],
  [("output_binary_ipv4_address/output_binary_ipv6_address/output_ipv4_class", "src/cmds/show_net.rs"), ("bytes_to_bits/bytes_to_binary", "src/bit_manip.rs")])
p("C06", "Minimize keeps exactly the given addresses",
  "The networks printed by --minimize together contain exactly the addresses contained in at least one of the given networks: none is lost, none is added. This holds for any number of networks in any order, with duplicates, overlaps, nesting, differing sizes and non-contiguous masks, anywhere in the address space including its first and last address.",
  ["inputs", "configurations"], "every list of same-family networks (and every hash seed of the process)",
  "The tests minimize three fixed lists; which pairs merge depends on alignment, order and hash-set iteration order for every combination of networks.",
  [S+"cmds/minimize.rs", S+"net.rs"], [("minimize_subnets", "src/cmds/minimize.rs"), ("is_superset_of/next_subnet_base_addr", "src/net.rs")])
p("C07", "Minimize output is irredundant, minimal and reproducible",
  "No network printed by --minimize is contained in another printed one, and no two printed networks with the same mask can be joined into one network that contains exactly their addresses by dropping the lowest one bit of a prefix mask; for prefix-length networks the result is therefore the unique shortest list. The output is in ascending order, does not depend on the order or repetition of the arguments or on the run, and minimizing it again changes nothing.",
  ["inputs", "configurations"], "every list of same-family networks, every permutation of it, every hash seed",
  "Order-independence and minimality quantify over permutations, hash seeds and all lists; the tests fix three lists in one order.",
  [S+"cmds/minimize.rs"], [("minimize_subnets", "src/cmds/minimize.rs")])
p("C08", "Derange covers exactly the given range",
  "--derange A B prints networks that are pairwise disjoint, in ascending order, and together contain exactly the addresses from the smaller to the larger of A and B inclusive. The result does not depend on the order of A and B, and it is produced for every range, including a single address, ranges touching the first or last address and the entire address space.",
  ["inputs"], "every pair of addresses of the same family",
  "The tests use a few ranges; the loop's decisions depend on the alignment of both ends and on overflow at the end of the address space.",
  [S+"cmds/derange.rs", S+"net.rs"], [("range_to_subnets", "src/cmds/derange.rs"), ("next_subnet_base_addr/last_addr_of_subnet", "src/net.rs")])
p("C09", "Derange uses the fewest possible networks",
  "No list of prefix-length networks shorter than the one printed by --derange covers exactly the same range: every printed network is as large as alignment and the range allow.",
  ["inputs"], "every pair of addresses of the same family",
  "Minimality is a statement about all alternative covers of all ranges.",
  [S+"cmds/derange.rs"], [("range_to_subnets", "src/cmds/derange.rs")])
p("C10", "Split gives every request a big-enough slice of the parent",
  "When --split succeeds it reports, in the order of the requests, one prefix-length network per requested host count; each lies inside the network being split, no two overlap, and each is the smallest prefix-length network whose host count (addresses minus two) is at least the request. Repeated, unsorted and zero requests are served like any others.",
  ["inputs"], "every prefix-length network of either family and every list of host counts",
  "The tests split three fixed networks; overlap and fit depend on the combination of sizes, alignment and position in the address space.",
  [S+"cmds/split.rs", S+"net.rs"], [("split_subnet/output_split", "src/cmds/split.rs")])
p("C11", "Split accounts for the remainder and admits impossibility",
  "The networks listed as unused after a successful --split are pairwise disjoint, ascending, and contain exactly the addresses of the split network that lie in none of the allotted slices; nothing is listed when the slices fill it exactly. When the slices cannot all be placed in the network the program says so with exit status 1 and allots nothing outside it; whenever they can be placed - however exactly they fit and even at the end of the address space - it succeeds.",
  ["inputs"], "every prefix-length network of either family and every list of host counts",
  "No test covers the leftover computation, the exact-fit case, the end of the address space or over-large requests.",
  [S+"cmds/split.rs", S+"cmds/derange.rs"], [("output_split", "src/cmds/split.rs"), ("range_to_subnets", "src/cmds/derange.rs")])
p("C12", "Resize between prefix lengths yields the right networks",
  "Resizing a prefix-length network to a shorter prefix yields the one network of that size that contains it, to the same prefix the network itself, and to a longer prefix all 2^d networks of the new size into which it divides, each exactly once, in ascending order, numbered from 1. The output says which of the three cases (Supernet, Same-sized net, Subnet) applies and shows the original network first.",
  ["inputs"], "every prefix-length network of either family and every new prefix or prefix mask",
  "The tests resize single examples; the count and identity of the subnets depend on every base address and pair of prefixes, including the ends of the address space.",
  [S+"cmds/resize.rs"], [("resize_network/resize_and_output", "src/cmds/resize.rs")])
p("C13", "Resize with non-contiguous masks keeps the network bits in order",
  "When the old or new mask is not a prefix mask, resizing keeps the values of the network bits in order: reading the bits of the resulting network's address at the one bits of its mask, most significant first, gives the original network's such bits, cut off at the end when there are fewer, and followed by every possible value of the additional bits - each exactly once, in ascending order - when there are more. Every resulting network has the requested mask and a base address without host bits, and results are pairwise disjoint.",
  ["inputs"], "every network and every pair of masks of either family",
  "Masks with holes number 2^32/2^128; the tests use a few fixed ones.",
  [S+"cmds/resize.rs", S+"bit_manip.rs"], [("resize_network", "src/cmds/resize.rs"), ("unravel_address/weave_address", "src/bit_manip.rs")])
p("C14", "Enumerate lists every address of the network exactly once",
  "--enumerate prints all addresses contained in each given network - those that agree with its base address on all mask bits - in ascending order, each exactly once, one per line, and no others; this includes networks with non-contiguous masks, single-address networks and networks that end at the last address of the address space.",
  ["inputs"], "every network of either family and every short list of networks",
  "Only two small networks are enumerated in tests; termination and completeness at the end of the address space and for all masks cannot be sampled.",
  [S+"cmds/enumerate.rs", S+"bit_manip.rs"], [("NetworkIter", "src/cmds/enumerate.rs"), ("weave_address/unravel_address", "src/bit_manip.rs")])
p("C15", "Enumerate reports bad networks and carries on",
  "If some of the networks given to --enumerate cannot be understood, each of them is reported on standard error, the addresses of all the others are still printed in the order given, and the exit status is 1; it is 0 when all were understood.",
  ["inputs"], "every list of well-formed and malformed network specifications",
  "No test runs the command with several arguments or bad ones; it quantifies over positions and kinds of bad arguments.",
  [S+"cmds/enumerate.rs"], [("enumerate", "src/cmds/enumerate.rs")])
p("C16", "Address arithmetic is exact integer arithmetic",
  "Adding an address or a signed offset to an address, or subtracting one from it, yields the address that integer arithmetic on the 32- or 128-bit values gives, and yields no result exactly when the integer result lies outside the address space. Splitting an address into bytes or 16-bit groups and joining them again gives back the same address, wrong lengths are refused, and counting, negating, combining and ordering addresses act on their numeric value.",
  ["inputs"], "every pair of addresses and every 32-bit signed offset, both families",
  "Carry and borrow across the 64-bit halves and overflow at both ends happen on rare values that the tests do not contain.",
  [S+"addr.rs"], [("add_addr/add_offset/subtract_addr/subtract_offset", "src/addr.rs"), ("to_bytes/from_bytes/to_chunks/from_chunks", "src/addr.rs")],
  observe=["address type operations used by every command"])
p("C17", "Containment and overlap answers match the address sets",
  "Whether a network contains an address, is a superset or subset of another network, or shares an address with another network is answered exactly as for the sets of addresses the networks stand for, for all combinations of prefix and non-contiguous masks. A network equals its own superset and subset, and strict construction succeeds exactly when the given address has no host bits.",
  ["inputs"], "every pair of networks and every address, both families",
  "Set relations over 2^64/2^256 pairs of networks; the tests check a few contiguous ones and none for overlap with non-contiguous masks.",
  [S+"net.rs"], [("contains/is_superset_of/is_subset_of/intersects/new_with_*_strict", "src/net.rs")],
  observe=["network type operations used by minimize and split"])
p("C18", "Compacting address bits by a mask is reversible and orderly",
  "Moving the network bits of an address to the front and the host bits to the back according to a mask, and the reverse operation, are mutually inverse for every address and mask; each keeps the relative order of network bits and of host bits, leaves addresses alone for prefix masks, and orders the addresses of one network as the addresses themselves are ordered.",
  ["inputs"], "every address and every mask of either family",
  "A permutation of up to 128 bits chosen by up to 128 mask bits; the tests use a few masks.",
  [S+"bit_manip.rs"], [("unravel_address/weave_address/bits_to_bytes/bytes_to_bits", "src/bit_manip.rs")],
  observe=["internal operation behind show, enumerate and resize for non-contiguous masks"])
p("C19", "Masks and prefix lengths convert both ways",
  "Every prefix length from 0 to the address width gives the mask with that many leading one bits followed by zeros, every such mask is recognised as exactly that prefix length, and a mask with any zero bit before a one bit is recognised as not being a prefix mask. A network given by a recognised mask behaves in every respect like the one given by its prefix length.",
  ["inputs"], "every prefix length and every mask of either family",
  "The 256-entry byte table and its combination over 4/16 bytes cover 2^32/2^128 masks; the tests check none of the non-prefix cases exhaustively.",
  [S+"cidr.rs", S+"net.rs"], [("prefix_from_subnet_mask_bytes/subnet_mask_bytes_from_prefix", "src/cidr.rs")])
p("C20", "IPv4 and IPv6 never mix within one calculation",
  "--minimize with networks of both families, --derange with addresses of both families and --resize of a network with a mask of the other family are refused: a message on standard error, no network printed and exit status 1, wherever in the argument list the mixture occurs. A bare prefix length on --resize is checked against the family of the network.",
  ["inputs"], "every argument list containing both families, in every position",
  "No test drives the commands with mixed arguments.",
  [S+"cmds/mod.rs", S+"cmds/minimize.rs", S+"cmds/derange.rs", S+"cmds/resize.rs"],
  [("parse_same_family_netspecs", "src/cmds/mod.rs"), ("derange version check", "src/cmds/derange.rs"), ("resize mask family check", "src/cmds/resize.rs")])
p("C21", "No command line crashes the program",
  "Whatever text is given as arguments, in whichever mode and number, the program ends by itself with exit status 0 or 1 and never by a panic; status 1 is accompanied by a message (usage, error, or that a split does not fit), status 0 comes without an error message, and calls with the wrong number of arguments print the usage text, and so does --help, which succeeds. Show mode prints nothing about any network if one of its arguments is not understood.",
  ["inputs"], "every list of (UTF-8) argument strings",
  "Arbitrary argument text is an unbounded input space; tests never run the program itself.",
  [S+"main.rs", S+"cmds/mod.rs", S+"addr.rs", S+"cmds/derange.rs", S+"cmds/split.rs"],
  [("do_main/usage", "src/main.rs"), ("argument count checks", "src/cmds/*.rs"), ("unwrap/expect sites", "src/**/*.rs")])
p("C22", "Colours change only the appearance and mark each bit for what it is",
  "Whether output is in colour or not, the text is the same: with the colour sequences taken out, coloured output equals uncoloured output, every sequence is complete and no colour is left on at the end. In the binary part of the Address and Network lines every network bit (as the mask says, contiguous or not) has one colour and every host bit another; the leading bits of an IPv4 Network line that decide the class of the network (up to and including the first zero, at most four) have a third colour if the mask fixes all of them, and no bit has it otherwise. --color-test shows every colour's name in a colour of its own.",
  ["inputs"], "every network of either family described in colour",
  "Colour is off in tests, and none looks at the bits' colours; the class marking depends on the leading address bits and mask bits together.",
  [S+"console.rs", S+"cmds/show_net.rs"], [("write_in_color", "src/console.rs"), ("output_binary_ipv4_address/output_binary_ipv6_address", "src/cmds/show_net.rs")])
p("C23", "The modes agree with each other",
  "What one mode prints, the others read and turn back: the range (--derange) from the Network to the Broadcast address that show mode names is that network, and with the range from HostMin to HostMax the two make up the network again (--minimize); the addresses that --enumerate lists, the subnets that --resize makes, and the slices and unused networks of --split minimize to the network they came from; a subnet resized to the old length is the old network; a range given to --minimize stays as it is, and its networks enumerate to its addresses in order.",
  ["inputs", "histories"], "every network or range passed from mode to mode",
  "Each mode has its own code for sizes and neighbours; no test passes the output of one to another.",
  [S+"cmds/minimize.rs", S+"cmds/derange.rs", S+"cmds/enumerate.rs", S+"cmds/resize.rs", S+"cmds/split.rs", S+"cmds/show_net.rs"],
  [("minimize_subnets", "src/cmds/minimize.rs"), ("range_to_subnets", "src/cmds/derange.rs"), ("resize_network", "src/cmds/resize.rs"), ("split_subnet", "src/cmds/split.rs"), ("NetworkIter", "src/cmds/enumerate.rs")])
p("C24", "Error messages point to the mistake",
  "When an argument is refused, the one-line message says what is wrong with it: --derange says whether the first or the second address is at fault (the first if both are); --enumerate, --resize and --split quote the network, mask or host count at fault (--enumerate in a message for each such network, in the order given); a prefix length beyond the family's maximum is named together with that maximum, in every mode; an IPv4 part out of range is named by its position (from 0) and value, with the range 0 to 255, and the message tells address from mask; too few or too many parts, a part that is no number, and repeated \"::\" are named by their number and the right one, by position and text, and by number.",
  ["inputs"], "every refused argument",
  "Messages are built at a dozen places from the text and the numbers found wrong; tests look at a few error values and never at a message.",
  [S+"addr.rs", S+"cmds/mod.rs", S+"cmds/derange.rs", S+"cmds/enumerate.rs", S+"cmds/resize.rs", S+"cmds/split.rs"],
  [("IpAddressParseError Display", "src/addr.rs"), ("ParseNetspecError Display", "src/cmds/mod.rs"), ("eprintln! sites", "src/cmds/*.rs")])
p("C25", "The first argument alone chooses the mode",
  "-m, -d, -s, -r and -e do exactly what --minimize, --derange, --split, --resize and --enumerate do, which is what the name says. No other spelling selects a mode (not a prefix, another case or a name with something added): any other first argument is taken for a network to show and is refused if it is none. Behind the first argument the names of modes have no meaning: they are refused like any text that is no network, address, mask or number.",
  ["inputs"], "every first argument, and names of modes at every place",
  "Tests call the functions of the modes and never select a mode by arguments.",
  [S+"main.rs"], [("do_main", "src/main.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
