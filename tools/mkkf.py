import json,subprocess
F={
 "get_uint_rand() must start from an empty accumulator when the last word was used up exactly": "P04",
 "keep KS and Kuiper significances inside [0,1] and make them converge for tiny deviations": "P05",
 "do not read past the interval list in the birthday tests": "P14",
 "do not read past the interval list in dab_birthdays1": "P14",
 "dab_birthdays1 must count a repeated interval that follows another repeated interval": "P03",
 "undefined shifts and division by zero in the DAB tests": "P14",
 "heap overflow, leak and unset p-value in the fill tree tests": "P14",
 "unusable tuple sizes of the DAB tests crashed": "P15",
 "words seen a multiple of 256 times counted as missing in bitstream and DNA": "P01",
 "diehard_bitstream read past its buffer for large -t": "P14",
 "binary_rank() eliminated the wrong words of matrices wider than one word": "P17",
 "the XOR supergenerator drew twice from its first component": "P13",
 "reseeding the XOR supergenerator leaked all of its components": "P14",
 "XOR supergenerator with named, missing or unusable components": "P13",
 "file names of 128 or more characters were cut, opening a different file": "P15",
 "the output flag name file_rng_stat was listed but not accepted": "P07",
 "repeating an output flag turned it off and other flags on": "P07",
 "command line overran the generator and seed vectors": "P15",
 "get_rand_bits_uint() reordered bits when a full word was requested after a partial one": "P04",
 "undefined shift in get_rand_bits_uint() for 32 bits without a mask": "P14",
 "a per-test reseed kept bits buffered from the previous stream": "P08",
 "a p-value of zero made std_test() start over instead of adding samples": "P06",
 "more than 100000 requested p-values were silently cut to the TTD cutoff in plain runs": "P06",
 "real numbers in a formatted input file were all read as zero": "P10",
 "formatted input must refuse lines that hold no number of its type": "P15",
 "every reseed of a formatted input file leaked an open file": "P14",
 "chop() wrote before an empty string": "P15",
 "a missing raw input file was judged by an uninitialised stat buffer": "P15",
 "superkiss returned values beyond its declared maximum": "P12",
 "seeding kiss and superkiss leaked the seeding generator": "P14",
 "the ca generator ignored the seed it was given and changed the reported one": "P12",
 "reseeding uvag did not restart its sequence and filled the bit buffers of the tests": "P12",
 "uvag read and wrote misaligned words": "P14",
 "the /dev/random family returned values beyond its declared range and leaked a file on reseed": "P12",
 "every histogram leaked its bins": "P14",
 "rgb_minimum_distance wrote past its points for more than five dimensions": "P14",
 "diehard_sums wrote past its single sum for -t 1": "P14",
 "marsaglia_tsang_gcd kept the table size of the first run in the process": "P08",
 "get_ntuple_cyclic() ended the program on tuples whose last piece spans two output words": "P04",
 "get_bit() tested the wrong bits, its mask overflowed an int": "P04",
 "dumping random numbers from an input file overwrote that file": "P15",
 "rgb_bitdist aborted for ntuples beyond the range of the generator": "P15",
 "the fill tree tests read outside their tables for very few samples": "P14",
 "negative numbers of p-values crashed for want of memory": "P15",
 "overlong lines of a formatted input file came back as several lines": "P15",
 "a negative ntuple was taken for a huge one": "P15",
 "rgb_permutations overran its tables for ntuples whose factorial overflows": "P15",
 "an empty generator name silently selected the default generator": "P16",
 "test and generator numbers beyond 32 bits wrapped around to other tests and generators": "P16",
 "debug output of get_rand_bits() read bytes as misaligned words": "P15",
 "debug output of marsaglia_tsang_gcd read a vector that no longer exists": "P15"
}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h\t%s'],stdout=subprocess.PIPE,text=True).stdout.split('\n')
kf=[k for k in json.load(open('/verif/known_findings.json')) if k.get('status')=='known']
for l in log:
    if '\tfix: ' not in l: continue
    h,s=l.split('\t'); s=s[5:]
    kf.append({'property':F[s],'status':'fixed','what':'fixed: property=%s %s %s'%(F[s],h,s)})
open('/verif/known_findings.json','w').write('[\n'+',\n'.join(' '+json.dumps(k) for k in kf)+'\n]\n')
