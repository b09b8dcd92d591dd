"""Regenerates the 'fixed:' part of known-findings.txt from /repo's fix commits."""
import subprocess
PROP = {  # commit subject (after 'fix: ') -> property
'pgm: accept PGM headers with a valid maximum value':'C09','pgm: reject ASCII pixels which are missing or out of range':'C09','pgm: release the buffer and the stream once when reading fails':'C09','pgm: report failures to write the header or to flush the file':'C10',
'sift: give keypoints outside the image a null descriptor':'C19','covdet: do not read beyond the scale space of a small image':'C02','generic: shift all bits out in VL_SHIFT_LEFT':'C19','covdet: refuse degenerate frames when extracting patches':'C19','dsift: do not read past images one pixel wide or high':'C02',
'kmeans: compile with OpenMP and recent compilers':'C07','kmeans: copy all the settings in vl_kmeans_new_copy()':'C13','gmm: release the covariance bounds and the mode masses':'C02','gmm: copy the covariance lower bounds in vl_gmm_new_copy()':'C13','gmm: do not repeat from uninitialized parameters':'C03',
'svm: release the scores in vl_svm_delete()':'C02','svm: handle allocation failures in the constructors':'C14','scalespace: release the list of octaves when an octave cannot be allocated':'C14','covdet: forget the features in vl_covdet_reset()':'C04','covdet: reset the number of suppressed features at each detection':'C04','covdet: do not write past the patch buffer left of the image':'C02',
'ikmeans: initialize the assignments and size the counts by cluster':'C02','hikmeans: release the previous tree when training again':'C02','hikmeans: do not descend below clusters without training data':'C02','mser: compare the heights of the trees which are joined':'C03','sift: forget the gradient of the previous image':'C04','hog: compute the norms afresh at each extraction':'C04','quickshift: compute the density afresh at each run':'C04',
'kdtree: bound the L1 distance correctly in exact searches':'C08','drivers: report outputs which could not be written':'C11','sift: detect truncated and unreadable frame files':'C11','sift: stop at images with an invalid PGM header':'C11','drivers: reject 16 bit PGM images':'C11','drivers: handle failing allocations before using the memory':'C11','sift: do not output undefined descriptors':'C12',
'kmeans: copy the energy in vl_kmeans_new_copy()':'C13','scalespace: compare the same fields in vl_scalespacegeometry_is_equal()':'C13',
'kmeans: report the energy of the current centers in vl_kmeans_get_energy()':'C15','svm: take the starting iteration number into account in SGD':'C16','svm: tolerate rounding of the weighted dual variables in SDCA':'C16',
'imopv: do not leak the buffer when the image is empty':'C02','pgm: report input errors that cut a number short':'C09','scalespace: do not write past the end when halving an odd height':'C02','sift: do not write past the octave when downsampling an odd height':'C02','scalespace: do not access octaves beyond the last one':'C02','kdtree: fall back to the median when the mean is below all points of a tree':'C08'}
PROP['sift, mser: refuse options with an empty argument'] = 'C11'
EXTRA = {}
out = []
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = PROP.get(s[5:]) or ('C19' if s.startswith('fix: toolbox: ') else None)
        if not p: raise SystemExit('no property for: ' + s)
        out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
f='/verif/known-findings.txt'
keep=[x for x in open(f).read().splitlines() if not x.startswith('fixed:')]
open(f,'w').write('\n'.join(keep+out)+'\n')
