import subprocess
m={
"Gaussian jacobian raised":"C01","Polynomial jacobian":"C01","NanoSpherical mishandled":"C02","FromSequence dropped":"C12",
"Arbitrary baseline had":"C01","TerminationRipples jacobian at a single":"C01","TerminationRipples jacobian ignored":"C01",
"factories let":"C12","fit counted data":"C05","fit crashed with TypeError":"C05","ModelCovariance kept":"C04","ModelCovariance.transform raised KeyError":"C04",
"ModelCovariance.transform converted":"C04","Gaussian had no":"C04","Peaks.match_at":"C16","scale_at returned":"C16","prune counted":"C08","prune raised":"C08",
"prune kept":"C08","augment failed":"C08","change_slice":"C24","ModelCluster strings without":"C12","saved models could":"C12","ModelCluster strings kept":"C12",
"extract_single":"C09","a partially defined":"C18","add_peaks":"C25","PeakExtraction.plot":"C09","PeakExtraction.read parsed":"C11","reading a saved":"C11",
"a PeakExtraction with":"C11","saved extractions kept":"C11","data lines with":"C11","malformed saved":"C11","TracePeaks.read parsed":"C22","TracePeaks.readstr":"C22",
"traces with numpy":"C22","find_nearest":"C07","adjacent clusters in":"C07","combine_clusters":"C07","combine_clusters corrupted the clusters when":"C07","cluster_boundaries":"C07","PeakStability.load":"C23",
"loadaics":"C19","classbestdgs":"C19","MultimodelSelection.get":"C19","classify put":"C19","plots of class":"C19","command line options --pf":"C21","--dg-mode":"C21",
"command line options --no":"C21","--bseq":"C21","the default unc":"C18","distances to compare":"C21","PDF files which":"C13","the current extraction":"C23",
"joined clusters preferred":"C09",
"initial peaks that explain":"C10",
"errors from damaged model":"C11",
"termination ripples evaluated":"C17",
"scaling a broad Gaussian over r":"C16",
"loading a saved series without":"C23",
"animations of probabilities":"C19",
"adding external peaks to a cluster changed":"C22",
"stored traces changed":"C22",
"a file log ignored":"C22",
"reading a damaged trace":"C22",
"after an extraction failed the records":"C22",
"joined clusters could have peaks":"C24",
"positions and series are drawn":"C26",
"makeplot uses the style":"C26",
"joining clusters lowers":"C24",
"whether to search a residual":"C27",
"an extraction option given as zero":"C21",
"reduce_to compares the whole":"C05",
"covariances of fits that reorder":"C05","covariances of nearly singular":"C05",
"series and qualities saved under Python 2":"C28",
"metadata sections of PDF":"C13","parameters given as":"C03","peaks of maximum":"C03","ModelCovariance.transform raised Index":"C04","covariances kept the signs":"C04"}
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","dc98a55..HEAD"],text=True)
lines=[]
for l in out.splitlines():
    h,s=l.split(" ",1); s=s[5:]
    k=[m[x] for x in m if s.startswith(x)]
    k=[max((x for x in m if s.startswith(x)),key=len)]
    lines.append("fixed: property=%s %s %s"%(m[k[0]],h,s))
head="""# Findings on the tree as it was given. Lines "fixed:" were repaired in /repo by the commit named, and suppress nothing.
# A line "known: property=<id> key=<monitor key> <what fails>" would exempt exactly that monitor key; there is none.
"""
open('/verif/KNOWN_FINDINGS.txt','w').write(head+"\n".join(lines)+"\n")
