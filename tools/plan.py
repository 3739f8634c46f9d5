"""Which harnesses decide which property, within which bounds."""
def J(h, bound, p=(), covers=("end",), time=0, steps=0):
    return {"h": h, "p": list(p), "bound": bound, "covers": list(covers), "time": time, "steps": steps}

PLAN = {}

full4, full6 = "all 32-bit addresses", "all 128-bit addresses"
PLAN["C16"] = dict(mods=["ut", "c16"], quick=[J("vf_h_c16_v6_counts", full6), J("vf_h_c16_v6_addsub", "all pairs of 128-bit addresses")] +
    [J("vf_h_c16_v4_" + n, "all pairs of 32-bit addresses" if n in ("addsub", "bits") else full4 + (" and all 32-bit offsets" if n == "offset" else "")) for n in ("addsub", "offset", "bytes", "bits", "counts")] +
    [J("vf_h_c16_v6_" + n, "all pairs of 128-bit addresses" if n == "bits" else full6 + (" and all 32-bit offsets" if n == "offset" else "")) for n in ("offset", "bytes", "bits", "chunks")])
PLAN["C17"] = dict(mods=["ut", "a8", "c17", "c17a"], quick=[
    J("vf_h_c17_v4_pair", "all pairs of IPv4 networks with any masks, and any address"),
    J("vf_h_c17_v4_mixed", "all pairs of an IPv4 network with any prefix length and one with any mask, and any address"),
    J("vf_h_c17_v6_contains", "all IPv6 networks, any address"), J("vf_h_c17_v6_strict", "all IPv6 addresses and masks"),
    J("vf_h_c17_a8_pair", "all pairs of 8-bit networks with any masks"), J("vf_h_c17_v4_contains", "all IPv4 networks, any address"), J("vf_h_c17_v4_strict", "all IPv4 addresses and masks")])
PLAN["C17"]["thorough"] = PLAN["C17"]["quick"] + [J("vf_h_c17_v6_pair", "all pairs of IPv6 networks with any masks, and any address")]
PLAN["C18"] = dict(mods=["ut", "a8", "c18", "c18a"], quick=[
    J("vf_h_c18_v6", "IPv6: all addresses; masks with one arbitrary byte at any place, 2 settings of the other bytes", [2]),
    J("vf_h_c18_v4", "IPv4: all addresses; masks with one arbitrary byte at any place, 4 settings of the other bytes", [4]),
    J("vf_h_c18_a8", "8 bits: all addresses, all masks"), J("vf_h_c18_bits", "byte sequences up to 17 bytes, one byte arbitrary")])
PLAN["C18"]["thorough"] = [
    J("vf_h_c18_v6", "IPv6: all addresses; masks with one arbitrary byte at any place, 8 settings of the other bytes", [8]),
    J("vf_h_c18_v4", "IPv4: all addresses; masks with one arbitrary byte at any place, 8 settings of the other bytes", [8]),
    J("vf_h_c18_v4_runs", "IPv4: all addresses; masks with up to three changes between ones and zeros"),
    J("vf_h_c18_v6_runs", "IPv6: all addresses; masks with up to two changes between ones and zeros")] + PLAN["C18"]["quick"][2:]
PLAN["C19"] = dict(mods=["ut", "a8", "c19", "c19a"], quick=[J("vf_h_c19_" + n, b) for n, b in (
    ("v6_from", "all 128-bit masks"), ("v6_alike", "all IPv6 addresses, all prefix lengths"), ("v4_to", "all IPv4 prefix lengths"), ("v6_to", "all IPv6 prefix lengths"),
    ("a8_from", "all 8-bit masks"), ("v4_from", "all 32-bit masks"), ("v4_alike", "all IPv4 addresses, all prefix lengths"))])
ascii_ = "any printable or control character"
PLAN["C01"] = dict(mods=["c01", "ut", "c01u"], quick=[
    J("vf_h_c01_v6_edits", "--derange, minimize, enumerate, resize and show mode: '1:c::7:8', any single edit (replace, insert, delete) with any ASCII character or an Arabic digit", [125, 1], ("end", "accepted", "refused")),
    J("vf_h_c01_v6_edits", "--enumerate and resize: '::f3', any single edit", [20, 2], ("end", "refused")),
    J("vf_h_c01_v6_edits", "'1:2:3:4:a:b:7::', any single edit", [1, 4], ("end", "refused", "accepted")),
    J("vf_h_c01_v4_edits", "all ways of giving an address: '10.200.30.4', any single edit with any ASCII character or an Arabic digit", [125], ("end", "accepted", "refused")),
    J("vf_h_c01_v4_widths", "one to five arbitrary digits in any one part, any values of 100-255 in the others", (), ("end", "accepted", "refused")),
    J("vf_h_c01_v4_count", "one to seven parts of one arbitrary digit", (), ("end", "accepted", "refused")),
    J("vf_h_c01_v6_full", "zero to ten groups without ::, any one of them one to four arbitrary digits", (), ("end", "accepted", "refused")),
    J("vf_h_c01_v6_short", "all positions of :: with up to nine groups, any one of them one to four arbitrary digits", (), ("end", "accepted", "refused")),
    J("vf_h_c01_u4_all", "parser: one to four arbitrary digits in each of the four parts", [4], ("end", "accepted", "refused")),
    J("vf_h_c01_u4_any", "parser: every ASCII text of 10 characters", [10], ("end", "accepted", "refused")),
    J("vf_h_c01_u6_shapes", "parser: all positions and extents of ::, first and last group of any digit count, all digits arbitrary"),
    J("vf_h_c01_u6_any", "parser: every ASCII text of 8 characters with groups of at most four", [8], ("end", "accepted", "refused"))],
    outside=["IPv6 groups of more than four digits are not judged"])
PLAN["C02"] = dict(mods=["c02", "ut", "c02u"], quick=[
    J("vf_h_c02_v6", "--derange: all patterns of zero groups; one group of any nonzero value (one in 16 combinations of pattern and group), the others any four-digit value; both ways", [16]),
    J("vf_h_c02_u6", "formatter and parser: all patterns of zero groups, one group of any value, the others any four-digit value", [1]),
    J("vf_h_c02_show6", "show mode: all patterns of zero groups, fixed values"),
    J("vf_h_c02_v4", "--derange: one octet of any value, the others of 100-255; both ways"),
    J("vf_h_c02_u4", "formatter and parser: all 32-bit addresses")])
PLAN["C02"]["thorough"] = [
    J("vf_h_c02_v6", "--derange: all patterns of zero groups, any one group of any nonzero value, the others any four-digit value; both ways", [1]),
    J("vf_h_c02_u6", "formatter and parser: all patterns of zero groups, any two groups of any value, the others any four-digit value", [0])] + PLAN["C02"]["quick"][2:]
ar = ("end", "accepted", "refused")
a4t, a6t = "an address of four three-digit octets (100-255 each)", "an address of eight four-digit groups"
# ---- C03
specs = ["10.2.30.4/24", "9.8.7.6/255.0.255.0", "1.2.3.4/-0.0.3.255", "1.2.3.4/-8", "1:2::f/64", "a::7/ffff::f0", "a:b::/-::f", "::1/-64"]
PLAN["C03"] = dict(mods=["c03"], quick=[
    J("vf_h_c03_modes", "all modes, both families: " + a4t + " or " + a6t + ", three masks each; every other way of writing the mask gives identical output"),
    J("vf_h_c03_forms", "every IPv6 prefix length in all six ways of writing it, any " + a6t[3:], [6]),
    J("vf_h_c03_forms", "every IPv4 prefix length in all six ways of writing it, any " + a4t[3:], [4]),
    J("vf_h_c03_number", "one to four arbitrary digits after / and /-, both families", (), ar),
    J("vf_h_c03_long", "5 to 40 digits after / and /-, the first and last arbitrary", (), ("end", "refused")),
    J("vf_h_c03_v4_mask", "masks and wildcards with one arbitrary octet at any place, five settings of the others"),
    J("vf_h_c03_v6_mask", "masks and wildcards with one arbitrary byte at any place, four settings of the others")] +
    [J("vf_h_c03_edits", "'%s', any single edit (replace, insert, delete) with any ASCII character or an Arabic digit" % t, [k, 1], ar) for k, t in enumerate(specs)])
# ---- C04, C05
PLAN["C04"] = dict(mods=["c04", "ut", "c04u"], quick=[
    J("vf_h_c04_v6_prefix", "every IPv6 prefix length, any " + a6t[3:]),
    J("vf_h_c04_u6", "network type: masks with one arbitrary byte at any place, one setting of the others, all IPv6 addresses", [1]),
    J("vf_h_c04_v6_mask", "IPv6 masks with one arbitrary byte (every 8th value) at any place; the address arbitrary in two groups where the mask is uneven", [1, 8]),
    J("vf_h_c04_v4_mask", "IPv4 masks with one arbitrary byte (every 8th value) at any place, any " + a4t[3:], [1, 8]),
    J("vf_h_c04_several", "two and three networks of both families with prefix and other masks, one address arbitrary"),
    J("vf_h_c04_v4_prefix", "every IPv4 prefix length; the octet in which it ends of any value, the others 100-255"),
    J("vf_h_c04_u4", "network type: masks with one arbitrary byte at any place, one setting of the others, all IPv4 addresses", [1]),
    J("vf_h_c04_u4p", "network type: every IPv4 prefix length, all addresses"), J("vf_h_c04_u6p", "network type: every IPv6 prefix length, all addresses")])
PLAN["C04"]["thorough"] = [
    J("vf_h_c04_v6_mask", "IPv6 masks with one arbitrary byte at any place, two settings of the others; the address arbitrary in two groups where the mask is uneven", [2, 2]),
    J("vf_h_c04_v4_mask", "IPv4 masks with one arbitrary byte at any place, four settings of the others, any " + a4t[3:], [4, 1]),
    J("vf_h_c04_u6", "network type: masks with one arbitrary byte at any place, two settings of the others, all IPv6 addresses", [2]),
    J("vf_h_c04_u4", "network type: masks with one arbitrary byte at any place, four settings of the others, all IPv4 addresses", [4])] + [j for j in PLAN["C04"]["quick"] if not j["p"]]
PLAN["C05"] = dict(mods=["c04", "c05"], quick=[
    J("vf_h_c05_resize", "resize output, both families: six pairs of masks, any " + a4t[3:] + " or " + a6t[3:]),
    J("vf_h_c05_split", "split output, both families: three sizes, any " + a4t[3:] + " or " + a6t[3:]),
    J("vf_h_c05_v6p", "show mode: every IPv6 prefix length, any " + a6t[3:]),
    J("vf_h_c05_v4", "show mode: masks with one arbitrary byte (every 8th value) at any place, two settings of the others; any " + a4t[3:], [8]),
    J("vf_h_c05_v6", "show mode: masks with one arbitrary byte (every 16th value) at any place, two settings of the others; the address arbitrary in two groups", [16]),
    J("vf_h_c05_class", "show mode: first octet of address any value, first octet of mask one in four values, three settings of the rest of the mask", [4])])
PLAN["C05"]["thorough"] = PLAN["C05"]["quick"][:3] + [
    J("vf_h_c05_v4", "show mode: masks with one arbitrary byte at any place, two settings of the others; any " + a4t[3:], [1]),
    J("vf_h_c05_v6", "show mode: masks with one arbitrary byte (every second value) at any place, two settings of the others; the address arbitrary in two groups", [2]),
    J("vf_h_c05_class", "show mode: first octets of address and mask any value, three settings of the rest of the mask", [1])]
# ---- C06, C07
mk = {0: "all prefix masks (8 bits) or nine prefix lengths (32, 128 bits)", 1: "all masks (8 bits) or all prefix masks", 2: "six masks with holes", 3: "six masks, prefix and other"}
def mini(h, n, kind, hs, covers=("end",)):
    w = {"a8": "8-bit addresses", "v4": "32-bit addresses", "v6": "128-bit addresses"}[h.split("_")[3]]
    return J(h, "minimizing function: %d networks, base addresses all %s, %s%s, hash order %d" % (n, w, mk[kind], ", the same for all" if h.endswith("same") else "", hs), [n, kind, hs], covers)
def morder(h, n, kind, hs, same):
    return J(h, "minimizing function: %d networks, all base addresses, %s%s: other orders, repetitions, hash order %d, and its own output again" % (n, mk[kind], ", the same for all" if same else "", hs), [n, kind, hs, same])
sh = {0: "one arbitrary octet (100-255) or group, three prefix lengths", 1: "four arbitrary low bits, the last three prefix lengths", 2: "two arbitrary bits in each of two octets, two masks"}
def mcli(n, s, hs): return J("vf_h_c06_cli", "--minimize: %d networks of either family; %s; hash order %d" % (n, sh[s], hs), [n, s, hs])
munit = [mini("vf_h_c06_v4_any", 3, 3, 5), mini("vf_h_c06_a8_same", 3, 1, 0, ("end", "joined")), mini("vf_h_c06_a8_any", 3, 0, 0), mini("vf_h_c06_a8_same", 4, 0, 0, ("end", "joined")), mini("vf_h_c06_a8_same", 4, 3, 7, ("end", "joined")),
         mini("vf_h_c06_a8_any", 3, 3, 0), mini("vf_h_c06_v4_same", 3, 1, 0), mini("vf_h_c06_v6_any", 2, 2, 0), mini("vf_h_c06_v4_any", 2, 1, 0)]
mclis = [mcli(3, 0, 0), mcli(3, 1, 3), mcli(3, 2, 0), J("vf_h_c06_ends", "--minimize: three networks at the ends of the address space, up to all of it"), mcli(2, 0, 0)]
PLAN["C06"] = dict(mods=["c06", "ut", "a8", "c06u"], quick=mclis + munit)
mdeep = [mini("vf_h_c06_a8_any", 2, 1, 0), mini("vf_h_c06_a8_any", 4, 3, 0), mini("vf_h_c06_v6_any", 3, 3, 5), mini("vf_h_c06_v6_same", 3, 3, 0), mini("vf_h_c06_a8_any", 4, 0, 0), mcli(4, 1, 5), mini("vf_h_c06_v6_any", 2, 0, 0)]
PLAN["C06"]["thorough"] = PLAN["C06"]["quick"] + mdeep
PLAN["C07"] = dict(mods=["c06", "ut", "a8", "c06u"], quick=[
    J("vf_h_c07_order", "--minimize: three networks of either family; %s; five other orders and repetitions under another hash order, and the output given back" % sh[1], [1]),
    J("vf_h_c07_order", "--minimize: three networks of either family; %s; likewise" % sh[2], [2]),
    morder("vf_h_c07_a8_order", 3, 3, 3, 0), morder("vf_h_c07_v4_order", 2, 0, 3, 0)] + mclis + [m for m in munit if m["p"] != [3, 3, 5] and m["p"] != [4, 0, 0]])
PLAN["C07"]["thorough"] = [J("vf_h_c07_order", "--minimize: three networks of either family; %s; other orders and repetitions, and the output given back" % sh[0], [0]),
    morder("vf_h_c07_a8_order", 3, 0, 4, 0), morder("vf_h_c07_a8_order", 3, 1, 2, 1), morder("vf_h_c07_v4_order", 3, 3, 3, 1)] + PLAN["C07"]["quick"] + mdeep
# ---- C08, C09
def win(fam, w, lc, hi, st):
    return J("vf_h_c08_%s_window" % fam, "range function: both ends differ in %d arbitrary bits at %s place of the %s bits; %s above; %d settings of the bits below" % (w, "any" if st < 2 else "every %dth" % st, fam[1:] == "4" and "32" or "128", "ones" if hi else "any bits", lc), [w, lc, hi] + ([st] if st > 1 else []))
def cwin(fam, w, st): return J("vf_h_c08_cli_window", "--derange, IPv%d: both ends differ in %d arbitrary bits at every %dth place, fixed bits above, zeros or ones below" % (fam, w, st), [fam, w, st])
PLAN["C08"] = dict(mods=["c08", "ut", "a8", "c08u"], quick=[
    J("vf_h_c08_a8", "range function: all pairs of 8-bit addresses"), win("v6", 3, 2, 1, 3), win("v4", 3, 2, 0, 1), win("v4", 4, 2, 1, 1),
    J("vf_h_c08_v4_ends", "range function: ranges that begin at the first or end at the last IPv4 address; the other end a byte of any value at every 4th place", [4]),
    J("vf_h_c08_cli_ends", "--derange: all pairs of eight addresses at the ends and in the middle of either address space"),
    cwin(4, 3, 4), cwin(6, 3, 16),
    J("vf_h_c08_cli_short", "--derange: up to two addresses from " + a4t + " or " + a6t + " on, in both orders", [2]),
    J("vf_h_c08_v4_short", "range function: up to six addresses from any IPv4 address on", [6]), J("vf_h_c08_v6_short", "range function: up to three addresses from any IPv6 address on", [3])])
PLAN["C08"]["thorough"] = PLAN["C08"]["quick"] + [
    win("v4", 4, 2, 0, 1), win("v6", 3, 2, 0, 4), win("v6", 2, 2, 0, 1), win("v4", 3, 4, 0, 1), cwin(4, 4, 2), cwin(6, 4, 8),
    J("vf_h_c08_v4_ends", "range function: ranges that begin at the first or end at the last IPv4 address; the other end a byte of any value at any place", [1]),
    J("vf_h_c08_v6_ends", "range function: ranges that begin at the first or end at the last IPv6 address; the other end a byte of any value at every 20th place", [20]),
    J("vf_h_c08_cli_short", "--derange: up to four addresses from " + a4t + " or " + a6t + " on, in both orders", [4]),
    J("vf_h_c08_v6_short", "range function: up to eight addresses from any IPv6 address on", [8]), J("vf_h_c08_v4_short", "range function: up to 16 addresses from any IPv4 address on", [16])]
def scat(fam, n): return J("vf_h_c08_v%d_scatter" % fam, "range function: two arbitrary bits at any two places of both IPv%d addresses (one in %d pairs of places), all other bits one of three patterns each" % (fam, n), [n])
def cscat(fam, n, m): return J("vf_h_c08_cli_scatter", "--derange, IPv%d: one arbitrary bit at any place of either address (%d pairs of places), all other bits one of three patterns each (one in %d combinations); either order" % (fam, (32 if fam == 4 else 128) ** 2 // n, m), [fam, n, m])
PLAN["C08"]["quick"] += [scat(4, 32), scat(6, 3001), cscat(4, 16, 2), cscat(6, 128, 41)]
PLAN["C08"]["thorough"] += [scat(4, 2), scat(6, 101), cscat(4, 4, 1), cscat(6, 64, 1)]
PLAN["C09"] = dict(PLAN["C08"])
# ---- C10, C11
def scli(fam, n, h, hs, v, cov): return J("vf_h_c10_cli", "--split, IPv%d: %d requests of 0, 1, 2, 3, 6, 7, 14, 15 hosts (the first %d of these) in networks of up to %d host bits; %s, and both ends of the address space; hash order %d" % (fam, n, v, h - 1, a4t if fam == 4 else a6t, hs), [fam, n, h, hs, v], cov)
sone = J("vf_h_c10_cli_one", "--split: one request of any number from 100 to 999 in networks of 7 to 11 host bits, two places", (), ("end", "no room"))
sbig = J("vf_h_c10_cli_big", "--split: networks of 0, 1, 2, half, all but one and all prefix bits at three places; requests that fill them, half of them, or too much", (), ("end", "no room"))
def sunit(fam, n): return J("vf_h_c10_" + fam, "splitting function: %d arbitrary requests of up to %s hosts, any base address, networks of up to %d host bits" % (n, "255" if fam == "a8" else "2047", 8 if fam == "a8" else 11), [n, 0])
def sany(fam, n, st): return J("vf_h_c10_%s_any" % fam, "splitting function, IP%s: %s of any size up to the whole address space%s, in a network that is just large enough, twice that, too small, or the whole address space; any base address" % (fam, "one request" if n == 1 else "two requests, the second as large, half as large or with half as many host bits, in both orders,", "" if st == 1 else " (one in %d numbers of host bits)" % st), [n, st])
def splitplan(cov):
    q = [scli(4, 3, 6, 3, 5, cov), scli(6, 2, 6, 3, 6, cov), scli(4, 2, 6, 0, 6, cov), scli(4, 1, 5, 0, 8, ("end", "no room")), sone, sbig] + [sunit(f, n) for f in ("v4", "v6", "a8") for n in (2, 1)] + [sany("v4", 2, 1), sany("v6", 1, 1)]
    qa, ta = [sany("v6", 2, 16)], [sany("v6", 2, 1)]
    t = [scli(4, 3, 7, 5, 8, cov), scli(6, 3, 5, 2, 5, cov), sunit("a8", 3), sunit("v4", 3)] + ta + q; q = qa + q
    return dict(mods=["c10", "ut", "a8", "c10u"], quick=q, thorough=t)
PLAN["C10"] = splitplan(("end", "no room")); PLAN["C11"] = splitplan(("end", "no room", "rest", "filled"))
# ---- C12, C13
los, lo_ = ("end", "larger", "same", "smaller"), ("end", "larger", "smaller")
PLAN["C12"] = dict(mods=["c12", "ut", "a8", "c12u"], quick=[
    J("vf_h_c12_cli", "--resize, IPv4: any prefix length to any other (all shorter ones, up to three longer ones; one in three pairs), " + a4t + " and both ends of the address space", [4, 3, 3], los),
    J("vf_h_c12_cli", "--resize, IPv6: any prefix length to any other (all shorter ones, up to two longer ones; one in 40 pairs), " + a6t + " and both ends of the address space", [6, 2, 40], los),
    J("vf_h_c12_v6_prefixes", "resizing function: any IPv6 prefix length to any shorter one and up to five longer ones, all addresses", [5, 1], los),
    J("vf_h_c12_v4_prefixes", "resizing function: any IPv4 prefix length to any shorter one and up to eight longer ones, all addresses", [8, 1], los),
    J("vf_h_c12_a8_prefixes", "resizing function: 8-bit addresses, all pairs of prefix lengths", [8, 1], los)])
PLAN["C12"]["thorough"] = [
    J("vf_h_c12_cli", "--resize, IPv4: any prefix length to any other (all shorter ones, up to five longer ones), " + a4t + " and both ends of the address space", [4, 5, 1], los),
    J("vf_h_c12_cli", "--resize, IPv6: any prefix length to any other (all shorter ones, up to three longer ones; one in 5 pairs), " + a6t + " and both ends of the address space", [6, 3, 5], los),
    J("vf_h_c12_v6_prefixes", "resizing function: any IPv6 prefix length to any shorter one and up to eight longer ones, all addresses", [8, 1], los),
    J("vf_h_c12_v4_prefixes", "resizing function: any IPv4 prefix length to any shorter one and up to ten longer ones, all addresses", [10, 1], los)] + PLAN["C12"]["quick"][4:]
PLAN["C13"] = dict(mods=["c12", "ut", "a8", "c12u"], quick=[
    J("vf_h_c13_cli", "--resize, IPv4: masks with one arbitrary byte (every 16th value), two settings of the others, to and from four masks (up to three bits longer); two octets of the address arbitrary", [4, 16], los),
    J("vf_h_c13_v6_masks", "resizing function: IPv6 masks with one arbitrary byte (one in 16), two settings of the others, to and from seven masks; all addresses", [2, 16], los),
    J("vf_h_c13_v4_near", "resizing function: IPv4 masks with one arbitrary byte (one in 4), two settings of the others, to masks that differ in one or two bits; all addresses", [2, 4, 3], los),
    J("vf_h_c13_a8", "resizing function: 8-bit addresses, one in two pairs of masks", [2], los),
    J("vf_h_c13_v4_masks", "resizing function: IPv4 masks with one arbitrary byte (one in 16), one setting of the others, to and from seven masks; all addresses", [1, 16], lo_),
    J("vf_h_c13_cli", "--resize, IPv6: masks with one arbitrary byte (every 128th value), two settings of the others, to and from four masks; two bytes of the address arbitrary", [6, 128], lo_)])
PLAN["C13"]["thorough"] = [
    J("vf_h_c13_cli", "--resize, IPv4: masks with one arbitrary byte (every 3rd value), two settings of the others, to and from four masks (up to three bits longer); two octets of the address arbitrary", [4, 3], los),
    J("vf_h_c13_v4_masks", "resizing function: IPv4 masks with one arbitrary byte, eight settings of the others, to and from seven masks; all addresses", [8, 1], los),
    J("vf_h_c13_v6_masks", "resizing function: IPv6 masks with one arbitrary byte (one in 2), two settings of the others, to and from seven masks; all addresses", [2, 2], los),
    J("vf_h_c13_v4_near", "resizing function: IPv4 masks with one arbitrary byte, eight settings of the others, to masks that differ in one or two bits; all addresses", [8, 1, 1], los),
    J("vf_h_c13_a8", "resizing function: 8-bit addresses, all pairs of masks", [1], los),
    J("vf_h_c13_cli", "--resize, IPv6: masks with one arbitrary byte (every 20th value), two settings of the others, to and from four masks; two bytes of the address arbitrary", [6, 20], lo_)]
# ---- C14, C15
PLAN["C14"] = dict(mods=["c14", "ut", "a8", "c14u"], quick=[
    J("vf_h_c14_v6", "iterator: IPv6 masks with up to three host bits: two anywhere (one in 8 pairs of places) and a neighbour; all addresses", [2, 8]),
    J("vf_h_c14_cli_mask", "--enumerate, IPv6: masks with up to three host bits anywhere (one in 7 pairs of places); two bytes of the address arbitrary, and the last addresses", [6, 7]),
    J("vf_h_c14_v4", "iterator: IPv4 masks with up to four host bits: two anywhere and up to two neighbours; all addresses", [3, 1]),
    J("vf_h_c14_cli_mask", "--enumerate, IPv4: masks with up to three host bits anywhere (one in 5 pairs of places); two octets of the address arbitrary, and the last addresses", [4, 5]),
    J("vf_h_c14_cli_prefix", "--enumerate: networks of up to 8 addresses, " + a4t + " or " + a6t + ", and both ends of the address space", [4]),
    J("vf_h_c14_a8", "iterator: 8-bit addresses, all masks")])
PLAN["C14"]["thorough"] = [
    J("vf_h_c14_v6", "iterator: IPv6 masks with up to four host bits: two anywhere and up to two neighbours; all addresses", [3, 1]),
    J("vf_h_c14_cli_mask", "--enumerate, IPv6: masks with up to three host bits anywhere; two bytes of the address arbitrary, and the last addresses", [6, 1]),
    J("vf_h_c14_v4", "iterator: IPv4 masks with up to eight host bits: two anywhere and up to six neighbours; all addresses", [7, 1]),
    J("vf_h_c14_cli_mask", "--enumerate, IPv4: masks with up to three host bits anywhere; two octets of the address arbitrary, and the last addresses", [4, 1]),
    J("vf_h_c14_cli_prefix", "--enumerate: networks of up to 128 addresses, " + a4t + " or " + a6t + ", and both ends of the address space", [8])] + PLAN["C14"]["quick"][5:]
PLAN["C15"] = dict(mods=["c14"], quick=[J("vf_h_c15_cli", "one to three arguments, each one of three good or seven kinds of bad ones, partly with arbitrary characters", [10], ("end", "bad", "good")),
    J("vf_h_c15_edit", "one to three arguments, one of them an edit (replace, insert, delete with any ASCII character) of one of three specifications, the others good with partly arbitrary addresses", (), ("end", "bad", "good"))])
# ---- checks through the command line for the properties of inner functions
def fb(prop, j): return dict(j, fallback=True, **{"as": prop})
def c19c(st4, st6, st): return [J("vf_h_c19_cli", "every prefix length of either family, written as number, mask and wildcard, in every mode (one in %d combinations; show mode of IPv4: all), " % st + a4t + " or " + a6t, [st]),
    J("vf_h_c19_cli_mask", "show mode: IPv4 masks with one arbitrary byte (one in %d), three settings of the others" % st4, [4, st4], ("end", "prefix mask", "mixed mask")),
    J("vf_h_c19_cli_mask", "show mode: IPv6 masks with one arbitrary byte (one in %d), three settings of the others" % st6, [6, st6], ("end", "prefix mask", "mixed mask"))]
PLAN["C19"]["thorough"] = PLAN["C19"]["quick"] + c19c(1, 2, 1); PLAN["C19"]["quick"] += c19c(4, 32, 24)
PLAN["C19"]["mods"] += ["c19c"]
for t in ("thorough", "quick"):
    for c, js, ms in (("C16", [next(j for j in PLAN["C08"][t] if j["h"] == "vf_h_c08_cli_" + n) for n in ("short", "ends")], ["c08"]),
                      ("C17", [mcli(2, s, 0) for s in (0, 1, 2)], ["c06"]),
                      ("C18", [j for j in PLAN["C13"][t] if j["h"] == "vf_h_c13_cli"], ["c12"])):
        PLAN[c][t] = PLAN[c].get(t, PLAN[c]["quick"]) + [fb({"C16": 8, "C17": 6, "C18": 13}[c], j) for j in js]
        if t == "quick": PLAN[c]["mods"] = ms + PLAN[c]["mods"]
# ---- C20, C21
PLAN["C20"] = dict(mods=["c20"], quick=[
    J("vf_h_c20_prefix", "--resize: one to four arbitrary digits as the new prefix length of a network of either family", (), ar),
    J("vf_h_c20_minimize", "--minimize: two to five networks of both families in every arrangement, addresses arbitrary, several ways of writing", [3]),
    J("vf_h_c20_resize", "--resize: networks in all ways of writing and with all prefix lengths, four kinds of masks of the other family, partly arbitrary"),
    J("vf_h_c20_odd", "--minimize: two to four networks, the first of the other family with any prefix length, host bit count or mask, at any place; four ways of writing the others"),
    J("vf_h_c20_derange", "--derange: addresses of both families, in both orders, arbitrary in part")])
PLAN["C20"]["thorough"] = [J("vf_h_c20_minimize", "--minimize: two to five networks of both families in every arrangement, addresses arbitrary, all ways of writing", [5])] + [PLAN["C20"]["quick"][i] for i in (0, 2, 3, 4)]
PLAN["C21"] = dict(mods=["c21"], quick=[
    J("vf_h_c21_any", "an argument of no or one arbitrary character (any ASCII character, or of two or three bytes) at any place in every mode", [1], ("end", "one")),
    J("vf_h_c21_two", "in every mode, a well-formed argument with any two neighbouring or nearly neighbouring characters arbitrary", [8], ("end", "one", "zero")),
    J("vf_h_c21_deep", "prefix lengths, host counts and address parts of 1 to 40 digits (14 lengths) with or without a sign, first and last digit arbitrary", [14], ("end", "one", "zero")),
    J("vf_h_c21_counts", "no to five arguments in every mode", (), ("end", "one", "zero")),
    J("vf_h_c21_show", "show mode: one bad argument of seven kinds among one to four, the first of the others with any prefix length"),
    J("vf_h_c21_bytes", "one byte that is no ASCII character (so not valid text) at any place of a well-formed argument in every mode, or alone"), J("vf_h_c21_help", "--help and --color-test")])
PLAN["C21"]["thorough"] = [
    J("vf_h_c21_any", "an argument of up to three arbitrary ASCII characters at any place in every mode", [3], ("end", "one")),
    J("vf_h_c21_any", "an argument of up to two arbitrary characters (the first possibly of two or three bytes) at any place in every mode", [2], ("end", "one")),
    J("vf_h_c21_deep", "prefix lengths, host counts and address parts of 1 to 42 digits (30 lengths) with or without a sign, first and last digit arbitrary", [30], ("end", "one", "zero"))] + [j for j in PLAN["C21"]["quick"] if j["h"] not in ("vf_h_c21_any", "vf_h_c21_deep")]
# ---- C22
PLAN["C22"] = dict(mods=["c22"], quick=[
    J("vf_h_c22_show", "show mode: IPv4 networks of every prefix length, first two bytes of the address arbitrary", [4, 1], ("class bits", "end")),
    J("vf_h_c22_show", "show mode: IPv6 networks with prefix lengths 0 to 3, 126 to 128 and every sixth other, last byte of the address arbitrary", [6, 6]),
    J("vf_h_c22_mask", "show mode: IPv4 masks with one of 64 values at any byte in three contexts, first byte of the address arbitrary", [4, 4], ("class bits", "end")),
    J("vf_h_c22_mask", "show mode: IPv6 masks with one of 16 values at any byte in three contexts, last byte of the address arbitrary", [6, 16]),
    J("vf_h_c22_modes", "split, resize and plain lists of both families, one byte of the address arbitrary", (), ("class bits", "end")),
    J("vf_h_c22_test", "--color-test")])
PLAN["C22"]["thorough"] = [
    PLAN["C22"]["quick"][0],
    J("vf_h_c22_show", "show mode: IPv6 networks of every prefix length, last byte of the address arbitrary", [6, 1]),
    J("vf_h_c22_mask", "show mode: IPv4 masks with any value at any byte in three contexts, first byte of the address arbitrary", [4, 1], ("class bits", "end")),
    J("vf_h_c22_mask", "show mode: IPv6 masks with any value at any byte in three contexts, last byte of the address arbitrary", [6, 1]),
    PLAN["C22"]["quick"][4], PLAN["C22"]["quick"][5]]
# ---- C24
PLAN["C24"] = dict(mods=["c24"], quick=[
    J("vf_h_c24_derange", "--derange: one or both addresses wrong in five ways, the right one arbitrary, the wrong one in one character"),
    J("vf_h_c24_quote", "--split, --resize, --enumerate: a network wrong in six ways, a host count or mask wrong, one or two characters arbitrary; --enumerate with any of one to three networks wrong", [3]),
    J("vf_h_c24_prefix", "all modes that take networks: one to four arbitrary digits as the prefix length, arbitrary addresses of both families"),
    J("vf_h_c24_octet", "show, --minimize, --derange, --resize: any octet of address or mask 256 to 999, the others arbitrary"),
    J("vf_h_c24_parts", "--derange, --resize: two to five (IPv4) or nine (IPv6) parts, any part two letters, or two or three times \"::\"; every digit arbitrary")])
PLAN["C24"]["thorough"] = [J("vf_h_c24_quote", PLAN["C24"]["quick"][1]["bound"].replace("one to three", "one to five"), [5])] + [PLAN["C24"]["quick"][i] for i in (0, 2, 3, 4)]
# ---- C25
PLAN["C25"] = dict(mods=["c25"], quick=[
    J("vf_h_c25_names", "both names of the five modes, arguments of either family, two bytes arbitrary"),
    J("vf_h_c25_edit", "any single edit (replace, insert, delete) of any of the twelve names with any ASCII character, with the arguments of the mode and alone"),
    J("vf_h_c25_place", "all names at the second and third place, in all modes and in show mode")])
PLAN["C25"]["thorough"] = [J("vf_h_c25_edit", "any two edits of any of the twelve names, with the arguments of the mode and alone", [1])] + PLAN["C25"]["quick"]
# ---- long lists and large results
def mmany(n, hs, st): return J("vf_h_c06_many", "--minimize: %d neighbouring networks of either family in four orders, three sizes, one of them missing, doubled or replaced by its neighbourhood%s; hash order %d; part of the address arbitrary" % (n, "" if st < 2 else " (one in %d places)" % st, hs), [n, hs, st])
def smany(st, cov): return J("vf_h_c10_cli_many", "--split: six lists of eight to twelve requests in several rotations and both directions (one in %d), in networks too small, just large enough, and twice that; two places" % st if st > 1 else "--split: six lists of eight to twelve requests in all rotations and both directions, in networks too small, just large enough, and twice that; two places", [3, st], cov)
PLAN["C06"]["quick"] += [mmany(16, 0, 2)]; PLAN["C07"]["quick"] += [mmany(16, 3, 2)]
PLAN["C06"]["thorough"] += [mmany(16, 0, 1), mmany(64, 0, 8)]; PLAN["C07"]["thorough"] += [mmany(16, 3, 1), mmany(64, 1, 8)]
for c, cov in (("C10", ("end", "no room")), ("C11", ("end", "no room", "rest", "filled"))):
    PLAN[c]["quick"] += [smany(8, cov)]; PLAN[c]["thorough"] += [smany(1, cov)]
def rmany(c, n, what): return J("vf_h_%s_cli_many" % c, "--resize: into %d subnets, %s; two bytes of the address arbitrary" % (1 << n, what), [n], ("end", "smaller"))
r12, r13 = "four prefix lengths of either family", "four masks with holes to two others each, either family"
PLAN["C12"]["quick"].insert(2, rmany("c12", 8, r12)); PLAN["C12"]["thorough"] += [rmany("c12", 10, r12)]
PLAN["C13"]["quick"].insert(2, rmany("c13", 5, r13)); PLAN["C13"]["thorough"] += [rmany("c13", 7, r13)]
def long_(n): return J("vf_h_c14_cli_long", "--enumerate: networks of %d addresses, four arrangements of the host bits, either family; one byte of the address arbitrary, and the last addresses" % (1 << n), [n])
def pairs12(f, n, st): return J("vf_h_c12_cli_pairs", "--resize, IPv%d: every pair of prefix lengths (up to %d longer%s), one byte of the address arbitrary" % (f, n, "; one in %d pairs, and all at the ends" % st if st > 1 else ""), [f, n, st], ("end", "larger", "same"))
PLAN["C12"]["quick"] += [pairs12(4, 2, 1), pairs12(6, 1, 8)]; PLAN["C12"]["thorough"] += [pairs12(4, 4, 1), pairs12(6, 2, 1)]
lengths6 = J("vf_h_c06_cli_lengths", "--minimize: two or three networks of every prefix length of either family, next to each other, apart, one in the other, of different sizes; one byte of the address arbitrary")
for c in ("C06", "C07"):
    PLAN[c]["quick"] += [lengths6]; PLAN[c]["thorough"] += [lengths6]
lengths8 = J("vf_h_c08_cli_lengths", "--derange: exactly one network of every prefix length of either family, one address more or less at either end, two networks; one byte of the address arbitrary")
for c in ("C08", "C09"):
    PLAN[c]["quick"] = PLAN[c]["quick"] + [lengths8]; PLAN[c]["thorough"] = PLAN[c]["thorough"] + [lengths8]
def big10(n, m): return J("vf_h_c10_cli_big", "--split: networks of every prefix length at %s; requests that fill them, half of them, parts of them, or too much" % ("one of three places" if m else "three places"), [n, m], ("end", "no room"))
for c in ("C10", "C11"):
    PLAN[c]["quick"] += [big10(1, 1)]; PLAN[c]["thorough"] += [big10(1, 0)]
def itlong(n): return J("vf_h_c14_it_long", "iterator: networks of %d addresses, in one run and spread over the whole address, either family; the last byte of the address arbitrary" % (1 << n), [n], steps=10**11)
PLAN["C14"]["quick"] += [long_(9), itlong(16)]; PLAN["C14"]["thorough"] += [long_(12), itlong(20)]
many15 = J("vf_h_c15_cli_many", "four to nine arguments, one or two of them bad, at any places; the others with partly arbitrary addresses")
PLAN["C15"]["quick"] += [many15]
# ---- C23
pl = "three bytes of the address arbitrary, and both ends of the address space"
PLAN["C23"] = dict(mods=["c23"], quick=[
    J("vf_h_c23_show", "show to --derange and --minimize: one in eight prefix lengths and the first and last ones, " + pl, [8]),
    J("vf_h_c23_range", "--derange to --minimize and --enumerate: ranges of one to four addresses, " + pl, [4]),
    J("vf_h_c23_split", "--split to --minimize: one or two requests of five sizes in networks of 16 to 64 addresses, " + pl, [2, 3], ("end", "no room")),
    J("vf_h_c23_resize", "--resize to --minimize and back by --resize: two to eight subnets, one in eight prefix lengths and the first and last ones, " + pl, [3, 8]),
    J("vf_h_c23_enumerate", "--enumerate to --derange and --minimize: networks of one to eight addresses, " + pl, [4])])
PLAN["C23"]["thorough"] = [
    J("vf_h_c23_show", "show to --derange and --minimize: all prefix lengths, " + pl, [1]),
    J("vf_h_c23_range", "--derange to --minimize and --enumerate: ranges of one to sixteen addresses, " + pl, [16]),
    J("vf_h_c23_split", "--split to --minimize: one to three requests of five sizes in networks of 16 to 64 addresses, " + pl, [3, 5], ("end", "no room")),
    J("vf_h_c23_resize", "--resize to --minimize and back by --resize: two to 16 subnets, all prefix lengths, " + pl, [4, 1]),
    J("vf_h_c23_enumerate", "--enumerate to --derange and --minimize: networks of one to 32 addresses, " + pl, [6])]
mshow = "show mode: %s networks of both families, one of them arbitrary or two of them alike"
PLAN["C04"]["quick"] += [J("vf_h_c04_many", mshow % "four, seven and ten", [4, 3])]; PLAN["C04"]["thorough"] += [J("vf_h_c04_many", mshow % "four, ten and sixteen" + " at any place", [4, 6, 1])]
PLAN["C01"]["quick"].insert(9, J("vf_h_c01_v4_long", "all ways of giving an address: one part of 6 to 39 digits (5 lengths), the last two of few values, the first arbitrary or zero", [5], ("end", "accepted", "refused")))
PLAN["C01"].setdefault("thorough", list(PLAN["C01"]["quick"])); PLAN["C01"]["thorough"] = [J("vf_h_c01_v4_long", "all ways of giving an address: one part of 6 to 39 digits (9 lengths), the last two of few values, the first arbitrary or zero", [9], ("end", "accepted", "refused")) if j["h"] == "vf_h_c01_v4_long" else j for j in PLAN["C01"]["thorough"]]
clong = lambda n, what: J("vf_h_c21_long", "an argument of %s characters, one of them arbitrary, in every mode" % what, [n], ("end", "one", "zero"))
cmany = lambda n, what: J("vf_h_c21_many", "%s arguments in every mode, one arbitrary character in the last" % what, [n], ("end", "one", "zero"))
PLAN["C21"]["quick"] += [clong(2, "30 and 65"), cmany(2, "7 and 12")]; PLAN["C21"]["thorough"] += [clong(4, "30 to 260"), cmany(3, "7 to 33")]
PLAN["C01"]["thorough"] += [
    J("vf_h_c01_u4_any", "parser: every ASCII text of 13 characters", [13], ("end", "accepted", "refused")),
    J("vf_h_c01_u6_any", "parser: every ASCII text of 11 characters with groups of at most four", [11], ("end", "accepted", "refused"))]
cany = lambda n: J("vf_h_c03_any", "every ASCII text of %d characters" % n, [n], ("end", "accepted", "refused"))
cshapes = lambda n: J("vf_h_c03_shapes", "every text of %d characters with one slash, the others digits, letters a to f, colons, dots and minus signs" % n, [n], ("end", "accepted", "refused"))
PLAN["C03"]["quick"] += [cany(5), cshapes(6)]; PLAN["C03"]["thorough"] = PLAN["C03"].get("thorough", PLAN["C03"]["quick"][:-2]) + [cany(6), cshapes(8)]
def mix4(n): return J("vf_h_c18_v4_mix", "IPv4: all addresses; masks of any four of ten bytes" + ("" if n < 2 else " (one in %d)" % n), [n])
def mix6(n): return J("vf_h_c18_v6_mix", "IPv6: all addresses; masks with two of seven uneven bytes at any places%s, the others all ones or all zeros" % ("" if n < 2 else " (one in %d)" % n), [n])
PLAN["C18"]["quick"][2:2] = [mix4(3), mix6(17)]; PLAN["C18"]["thorough"][4:4] = [mix4(1), mix6(2)]
# ---- outputs of many lines
def huge14(n, f, k): return J("vf_h_c14_cli_huge", "--enumerate, IPv%d: %d addresses in one run%s; one byte of the address arbitrary" % (f, 1 << n, " or two" if k > 1 else ""), [n, f, k], steps=10**12)
PLAN["C14"]["quick"] += [huge14(17, 4, 1), huge14(12, 6, 2)]; PLAN["C14"]["thorough"] += [huge14(18, 4, 2), huge14(17, 6, 2)]
def huge12(n): return J("vf_h_c12_cli_huge", "--resize: into %d subnets, either family; one byte of the address arbitrary" % (1 << n), [n], ("end", "smaller"), steps=10**12)
PLAN["C12"]["quick"] += [huge12(10)]; PLAN["C12"]["thorough"] += [huge12(14)]
def crowd(n, w): return J("vf_h_c10_cli_crowd", "--split: %s requests of one size or mixed, that fill the network or are one too many; one byte of the address arbitrary" % w, [n, 0], ("end", "no room"), steps=10**12)
for c in ("C10", "C11"):
    PLAN[c]["quick"] += [crowd(2, "33 and 64")]; PLAN[c]["thorough"] += [crowd(4, "33 to 256")]
first14 = [J("vf_h_c14_cli_first", "--enumerate: the first lines of networks of 128 addresses up to the whole address space, every prefix length and six masks with holes, either family; one byte of the address arbitrary, and both ends of the address space", [1], ()),
           J("vf_h_c14_it_first", "iterator: the first nine addresses of networks of every prefix length, either family; any base address")]
PLAN["C14"]["quick"] += first14; PLAN["C14"]["thorough"] += first14
def many20(n, w): return J("vf_h_c20_many", "--minimize: %s networks, one or two of them of the other family, at any places; one byte of the addresses arbitrary" % w, [n])
PLAN["C20"]["quick"] += [many20(3, "6, 9 and 17")]; PLAN["C20"]["thorough"] += [many20(4, "6, 9, 17 and 33")]
def crowd15(n, w): return J("vf_h_c15_cli_crowd", "%s arguments, alike or different, one of them bad, or all but one, or none; one byte of the addresses arbitrary" % w, [n])
PLAN["C15"]["thorough"] = PLAN["C15"].get("thorough", PLAN["C15"]["quick"]) + [crowd15(3, "17, 40 and 99")]; PLAN["C15"]["quick"] = PLAN["C15"]["quick"] + [crowd15(2, "17 and 40")]
def mix6_(n, hs): return J("vf_h_c06_mix", "--minimize: %d lists of 8 to 40 networks of either family, of several sizes, nested, repeated, next to each other, some with holes; hash order %d; one byte of the addresses arbitrary, and both ends of the address space" % (2 * n, hs), [n, hs])
PLAN["C06"]["quick"] += [mix6_(200, 0)]; PLAN["C06"]["thorough"] += [mix6_(5000, 0)]; PLAN["C07"]["quick"] += [mix6_(200, 3)]; PLAN["C07"]["thorough"] += [mix6_(5000, 5)]
def mix13(n): return J("vf_h_c13_cli_mix", "--resize: %d pairs of irregular masks of either family, up to 16 subnets; two bytes of the address arbitrary, and both ends of the address space" % (2 * n), [n], ("end", "larger", "same", "smaller"))
PLAN["C13"]["quick"] += [mix13(40)]; PLAN["C13"]["thorough"] += [mix13(1500)]
def mix10(n): return J("vf_h_c10_cli_mix", "--split: %d lists of one to nine requests of up to 70000 hosts, in networks too small, just large enough, and larger, either family; one byte of the address arbitrary, and the end of the address space" % (2 * n), [n, 0], ("end", "no room"))
for c in ("C10", "C11"):
    PLAN[c]["quick"] += [mix10(40)]; PLAN[c]["thorough"] += [mix10(1500)]
def mix4_(n, cols): return J("vf_h_c04_mix", "show mode: %d irregular masks of either family; one byte of the address arbitrary, a fixed address, and both ends of the address space" % (2 * n), [n, cols])
PLAN["C04"]["quick"] += [mix4_(80, 1)]; PLAN["C04"]["thorough"] += [mix4_(3000, 1)]; PLAN["C05"]["quick"] += [mix4_(60, 6)]; PLAN["C05"]["thorough"] += [mix4_(3000, 6)]
def crowd6(n, w, hs): return J("vf_h_c06_crowd", "--minimize: %s networks of either family, apart, a few next to each other, or the same few again and again; hash order %d; one byte of the addresses arbitrary" % (w, hs), [n, hs], steps=10**12)
PLAN["C06"]["quick"] += [crowd6(3, "70 to 280", 0)]; PLAN["C06"]["thorough"] += [crowd6(3, "70 to 280", 0)]; PLAN["C07"]["quick"] += [crowd6(3, "70 to 280", 3)]; PLAN["C07"]["thorough"] += [crowd6(3, "70 to 280", 5)]
def crowd4(a, b, w): return J("vf_h_c04_many", mshow % w + ", the last of them", [a, b, 0, 1], steps=10**12)
PLAN["C04"]["quick"] += [crowd4(40, 33, "forty, 73 and 106")]; PLAN["C04"]["thorough"] += [crowd4(40, 120, "forty, 160 and 280")]
def huge13(n): return J("vf_h_c13_cli_huge", "--resize: into %d subnets by masks with holes, either family; one byte of the address arbitrary" % (1 << n), [n], ("end", "smaller"), steps=10**12)
PLAN["C13"]["quick"] += [huge13(9)]; PLAN["C13"]["thorough"] += [huge13(12)]
