"""Writes known_findings.json (run by hand)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [l.split('|') for l in '''
C02 C03|25501c4|horizontal field and design matrices inaccurate or NaN within 1e-7 degrees of the poles
C02|85c494f|colatitudes outside of [0, 180] accepted if a pole is in the same array
C11|b631865|synth_rotate_gauss failed for a frequency vector, as documented
C10|ed32a65|zenith_angle NaN at the subsolar point and its antipode
C10|08d6c49|sun_position accepted times before 1901
C12|ea4bb0d|complex apparent resistivity from the quadratic conductivity
C12|8a2f6db|q_response_1D failed for a single period given as float
C13|d9361fe|mjd2000 wrong (overflow) for dates outside of 1678 to 2262
C13|dcb64f8|is_leap_year rejected integers that are not int64
C16|ff6e70f|extrapolation with polynomials of degree two and higher lacked the factorial
C16|cebcc45|one NaN in the times switched off the treatment of extrapolation of the others
C25|bd8bd89|setting not restored when a context is left by an exception
C26 C27|01cbcdb|plot_power_spectrum replaced zeros in the given array
C19|79355e5|load_matfile did not unpack single-element object arrays of one dimension
C19|8286f12|save_matfile failed for satellites with an equal number of Euler angle bins
C19|a7355cb|load_CHAOS_matfile changed the given list of satellites and failed for a tuple
C24|2681ec1|CHAOS could not be made without pre-rotation angles
C19|5f8f965|MAT-files with one bin of the offsets or one satellite failed to load
C14 C17|840000d|static coefficients given as vector: only the last one was used
C14|24c4e07|save_shcfile of the static field failed without time-dependent field
C21|171764a|GSM coefficients failed for a model without static field
C13|3f6f5f3|timestamp wrong (overflow) for dates before 1707
C14|3e2c603|save_shcfile failed for a single time given as float
C21|24a6cdf|spectra with scaled=False (NumPy bool, as loaded from a file) not scaled
C25|6936953|changing a vector setting in place changed its default
C27|8ae807c|sensitivity failed for integer coefficients
C14|e0dc3a8|to_shc sampled the break points twice for splines of order 8 and others
C27|b18fa04|collocation matrix and synth_from_pp failed for integer knots or coefficients
C27|8f8163f|spectra and Legendre functions wrong for small integer types (overflow)
C27|8dfa40c|coordinate transformations wrong for small integer types (overflow)
C27|f97ffe8|q_response_1D wrong for radii of small integer types (overflow)
C25|3da08de|context kept the temporary value if the path set before was gone
C25|c6d3d61|vector settings accepted text and other non-numbers
C20|56978b9|a misspelled source in source_list silently gave a field of zero
C12|f9973a0|response of uniform shells wrong for degrees above ten
C12|1665b3d|response of uniform shells NaN if a shell is an insulator
C02|f54ceb8|NaN colatitudes hide poles and invalid colatitudes in the same array
C04 C18|76dd6a9|interior knots of higher multiplicity gave the wrong pieces
C14|0968a5c|blank lines in SHC-files were read as numbers
C23|f5e7a41|IGRF TXT-files with a blank line on top failed to load
C25|a5a3367|file settings given as path objects were lost on saving, numbers accepted as file descriptors
C13 C27|cb4d820|years in an array of objects (as of a mixed table) were read as microseconds
C16|0ffd19c|the warning named the order of the extrapolation as {key}
'''.strip().splitlines()]
out = [dict(property=p, status='fixed', commit=c,
            what=f'fixed: property={p} {c} {w}')
       for ps, c, w in F for p in ps.split()]
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
