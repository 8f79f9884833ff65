"""Names whose hashes lie at the edges of the index range (hash seed 0): the XXH3 hashes of about 10^9 names were searched once."""

# namespaces whose hash is less than 7 below 2^32
LAST_NS = ["n1679175836", "n990188965"]

# namespace -> {index modulo 2^18: feature name}; the indices are 2^k - 1, 2^k and 2^k + 1
EDGE = {
    ':default': {0: 'f27485', 1023: 'f1039004', 1024: 'f127256', 1025: 'f542410', 2047: 'f761245', 2048: 'f77407', 2049: 'f62803', 4095: 'f130159', 4096: 'f282321', 4097: 'f54102', 8191: 'f236221', 8192: 'f565319', 8193: 'f196531', 16383: 'f119798', 16384: 'f229562', 16385: 'f33135', 32767: 'f227404', 32768: 'f665301', 32769: 'f176146', 65535: 'f78926', 65536: 'f84462', 65537: 'f333797', 131071: 'f188231', 131072: 'f243606', 131073: 'f227276', 262143: 'f367227'},
    'a': {0: 'f55689', 1023: 'f16494', 1024: 'f49985', 1025: 'f703531', 2047: 'f159862', 2048: 'f22043', 2049: 'f153288', 4095: 'f367596', 4096: 'f578367', 4097: 'f32567', 8191: 'f65942', 8192: 'f152717', 8193: 'f242425', 16383: 'f3748', 16384: 'f167310', 16385: 'f284601', 32767: 'f1844', 32768: 'f60833', 32769: 'f41146', 65535: 'f240568', 65536: 'f290061', 65537: 'f324519', 131071: 'f194004', 131072: 'f647283', 131073: 'f69531', 262143: 'f121254'},
    'b': {0: 'f73344', 1023: 'f472998', 1024: 'f952095', 1025: 'f65571', 2047: 'f89224', 2048: 'f74182', 2049: 'f169550', 4095: 'f385871', 4096: 'f678450', 4097: 'f335020', 8191: 'f699220', 8192: 'f362155', 8193: 'f51809', 16383: 'f66858', 16384: 'f3261', 16385: 'f237342', 32767: 'f643562', 32768: 'f151178', 32769: 'f19759', 65535: 'f60234', 65536: 'f358518', 65537: 'f783888', 131071: 'f23870', 131072: 'f60865', 131073: 'f790549', 262143: 'f92354'},
}
