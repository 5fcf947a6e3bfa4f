#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; checks do not use it)."""
import json, os
P=[]
S='CoarseGrainSites/src/libmythical/'
I='CoarseGrainSites/include/mythical/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe:a['observe_at']=observe
    if state:a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
CUB=[S+'charge_transport/cuboid_lattice.cpp',I+'charge_transport/cuboid_lattice.hpp']
C=S+'charge_transport/cuboid_lattice.cpp'
p('C01','Cuboid lattice: site index and lattice position are inverse bijections',
 'On a cuboid lattice of any size the site indices are exactly 0..N-1 (N = length*width*height), numbered with x running fastest, then y, then z. Converting a position to an index and back (as a whole vector or one coordinate at a time) returns the same position, and converting an index to a position and back returns the same index.',
 ['inputs','configurations'],'every lattice size whose site count fits an int, every boundary setting, every in-range position and index',
 'The unit test looks at one 3x4x5-like lattice and a few positions; strides that coincide (cube edges, edge length 1, very large lattices) are not covered.',
 CUB,[('Cuboid::getIndex / getIndex_',C),('Cuboid::getPosition/getX/getY/getZ',C)])
p('C02','Cuboid lattice: periodic axes wrap any number of periods, fixed axes never',
 'Along a periodic axis, moving a position by any whole number of lattice lengths, in either direction, names the same site. Along a fixed axis no wrapping happens: a position outside the lattice is refused with an invalid_argument error.',
 ['inputs','configurations'],'every lattice size, every combination of periodic and fixed axes, every integer coordinate',
 'The tests wrap by at most one period on one lattice.',CUB,[('getXPeriodic_/getYPeriodic_/getZPeriodic_',C),('checkPosX_/checkPosY_/checkPosZ_',C)])
p('C03','Cuboid lattice: every out-of-range request is refused with invalid_argument',
 'A lattice with a negative edge or with more sites than an int can number, a site index below 0 or at or above the site count, a position vector that does not have exactly three entries, a position off the lattice given to a neighbour search or along a fixed axis, a plane index off the lattice, and any position on a lattice without sites are all refused with an invalid_argument error, by every lattice query that takes them. Requests that are in range are never refused.',
 ['inputs','configurations'],'every lattice, every query, every index/position/plane in or out of range',
 'Tests only probe one or two bad arguments of single queries; negative indices and bad planes are not probed.',CUB,[('checkIndex_/checkPos*_/checkBounds_ and the guards in the public queries',C)])
p('C04','Cuboid lattice: neighbour search of a site finds exactly the sites in range',
 'The neighbours of a site for a cutoff are exactly the other sites whose shortest distance (through periodic boundaries where the axis is periodic) is at most the cutoff, and the site is never its own neighbour. Every reported distance is the distance to an image of that neighbour, the smallest one reported is the shortest distance, and when the cutoff is below half of every periodic edge each neighbour is reported once. The index-only and with-distance forms, by index or by position, agree.',
 ['inputs','configurations'],'every lattice size and spacing, boundary setting, site and non-negative cutoff (cutoffs within rounding error of a site distance are decided only where that distance is exact)',
 'The tests count neighbours for a single lattice and cutoff.',CUB,[('getNeighbors',C),('getNeighborDistances_',C)])
p('C05','Cuboid lattice: whole-lattice neighbour table is complete, symmetric, shortest',
 'The neighbour table of the whole lattice for a cutoff lists, for every site, exactly the other sites whose shortest (periodic where applicable) distance is at most the cutoff, together with that shortest distance. The table is symmetric: i lists j with a distance exactly when j lists i with the same distance.',
 ['inputs','configurations'],'every lattice size and spacing, boundary setting and non-negative cutoff (cutoffs within rounding error of a site distance are decided only where that distance is exact)',
 'No test checks the table against distances.',CUB,[('getNeighborDistances(cutoff)',C)])
p('C06','Cuboid lattice: smallest distance is the minimum-image metric',
 'The smallest distance between two sites is the Euclidean length of the shortest separation, where each periodic axis contributes the smaller way round and each fixed axis the plain difference, times the lattice spacing. It is zero only for equal sites, symmetric, and on a fully periodic lattice it is unchanged when both sites are shifted by the same amount.',
 ['inputs','configurations'],'every lattice size and spacing, boundary setting and pair of sites',
 'Tests check a few pairs that include the origin.',CUB,[('getSmallestDistance, getDistance_',C)])
p('C07','Cuboid lattice: random sites lie in the requested plane, uniformly',
 'A random site requested in a plane always is a valid site of the lattice lying in exactly that plane, every site of the plane can be drawn, and all are equally likely. This holds for each of the three plane orientations and every valid plane index.',
 ['inputs','configurations','histories'],'every lattice size, boundary setting, plane orientation, valid plane index and sequence of draws',
 'No test draws from a lattice whose edges differ, so mixing up the axes is invisible.',CUB,[('getRandomSite, setDistributions_',C)])
M=S+'charge_transport/marcus.cpp'
p('C08','Marcus rates: formula, detailed balance and scaling hold for all energies',
 'The charge-transfer rate equals 2*pi/hbar * H^2 / sqrt(4*pi*lambda*kB*T) * exp(-(lambda + Ej - Ei)^2 / (4*lambda*kB*T)) with energies in eV. Hence forward and backward rates obey detailed balance, the rate grows with the square of the coupling, depends only on the energy difference, and is largest when the driving force cancels the reorganisation energy.',
 ['inputs'],'every positive reorganisation energy and temperature, every pair of energies and coupling in the physical range',
 'There is no unit test for the rate at all.',[M,I+'charge_transport/marcus.hpp',I+'constants.hpp'],[('Marcus::Marcus prefactor, Marcus::getRate',M)])
Q=S+'queue.cpp'
p('C09','Walker queue: never loses walkers and yields them in order of time',
 'Whatever sequence of unsorted adds, sorted adds, sorts and pops is performed, the queue holds exactly the walkers added and not yet popped, each with its own time. Whenever the queue reports that it is sorted, and always right after sorting, its entries are in non-decreasing time order, so popping returns a walker with the smallest time; an entry beyond the end is refused with an out_of_range error.',
 ['histories','inputs'],'every history of add, sortedAdd, sort, pop, at, size with any ids and non-NaN times, popping only from a non-empty queue',
 'Tests run three fixed short sequences with distinct times.',[Q,I+'queue.hpp'],[('Queue::sortedAdd / add / sort / pop_current',Q)])
W=S+'walker.cpp'
p('C10','Walkers and identified objects return what was last stored or refuse',
 'A walker returns exactly the site, next site and dwell time last stored in it, each independently of the others and of other walkers, and an identified object returns the id last given. Asking for a site, next site or id that was never assigned is refused with a runtime_error.',
 ['histories','inputs'],'every history of assignments, copies and queries over several walkers and identified objects',
 'Tests store one value each.',[W,I+'walker.hpp',S+'identity.hpp'],[('Walker getters/setters',W),('Identity::getId/setId',S+'identity.hpp')])
R=S+'rate_container.cpp'
p('C11','Rate container: answers match the stored rates and queries change nothing',
 'After any history of additions, each lookup, incoming or outgoing count, incoming or outgoing listing, and the lists of source sites (rates out, none in) and sink sites (rates in, none out) agree with the set of rates added. Adding a rate that exists and looking up one that does not are refused with invalid_argument, and neither a query nor a refused single addition or lookup changes (a refused bulk addition may have added the rates before the refused one) any stored rate or any later answer.',
 ['histories','inputs'],'every history of single and bulk additions interleaved with queries over any ids, including absent ones',
 'Tests query only sites that are present, once.',[R,S+'rate_container.hpp'],[('Rate_Container methods',R)])
T=S+'topologyfeatures/'
p('C12','Site: hop probabilities and dwell constant always match its current rates',
 'After any history of setting, adding and resetting rates, the neighbours of a site are exactly those ever given, the rate to each is the latest one, the probability of hopping to a neighbour is its rate divided by the sum of all rates, and the mean dwell time is one over that sum. Rates are referenced, not copied: a rate changed by its owner is seen immediately by rate queries, and by probabilities and dwell time after the next rate operation.',
 ['histories','inputs'],'every history of bulk set, add, reset and in-place changes of rates, any number of neighbours, rates over many orders of magnitude',
 'Tests set one or two rates once.',[T+'site.cpp',T+'site.hpp'],[('setRatesToNeighbors/addNeighRate/resetNeighRate',T+'site.cpp'),('calculateProbabilityHopToNeighbors_, calculateDwellTimeConstant_',T+'site.cpp')])
p('C13','Site: random dwell times and hops follow the rates, reproducibly per seed',
 'The dwell times drawn from a site are exponentially distributed with mean one over the sum of its rates, and the sites picked are always neighbours, each chosen with probability its rate over the sum of rates. The same seed and rates reproduce the same draws.',
 ['inputs','histories'],'every set of rates, seed and interleaving of dwell and hop draws',
 'Tests check one two-neighbour site.',[T+'site.cpp',T+'topology_feature.cpp'],[('Site::pickNewSiteId',T+'site.cpp'),('TopologyFeature::getDwellTime, setRandomSeed',T+'topology_feature.cpp')])
p('C14','Site: occupancy and visit counts track every arrival and departure',
 'A site is occupied exactly while more walkers have arrived than have left or been removed, and its visit count is the number of arrivals since it was last set. Marking a site occupied or unoccupied changes only the occupancy, and departures and removals never change the visit count.',
 ['histories'],'every history of arrivals, departures (only when occupied), removals, markings and visit-count settings, through either form of each call',
 'Tests do one arrival and one departure.',[T+'topology_feature.cpp',T+'topology_feature.hpp'],[('occupyTopology_/vacateTopology_/isOccupiedTopology_/removeWalker_',T+'topology_feature.cpp')])
SC=S+'site_container.cpp'
p('C15','Site container: stores each site once and answers for exactly what it holds',
 'After any history of additions and updates, the container holds exactly the sites added and every query (existence, size, ids, copies, rates, neighbours, time constants, occupancy, cluster membership, smallest cluster id among given sites) answers as the individual stored site would. Adding an id twice or asking about an absent site is refused with invalid_argument, a query never adds anything, and a reference handed out stays valid and refers to the same site while more sites are added. A refused bulk addition may have added the sites before the refused one.',
 ['histories','inputs'],'every history of additions, occupancy and cluster-id changes and queries, including ids that are absent',
 'Tests use containers of one to three sites and no refused bulk operation.',[SC,S+'site_container.hpp'],[('Site_Container methods',SC)])
CC=S+'cluster_container.cpp'
p('C16','Cluster container: stores each cluster once and answers for what it holds',
 'After any history of additions and erasures, the container holds exactly the clusters added and not erased and every query (existence, size, ids, member sites, neighbours, resolution, time increment, time constant, fastest exit rate, occupancy) answers as the individual stored cluster would. Adding an id twice or asking about an absent cluster is refused with invalid_argument, erasing an absent one does nothing, and a reference handed out stays valid while other clusters are added or erased. A refused bulk addition may have added the clusters before the refused one.',
 ['histories','inputs'],'every history of additions, erasures, occupancy changes and queries, including absent ids',
 'Tests use one or two clusters.',[CC,S+'cluster_container.hpp'],[('Cluster_Container methods',CC)])
CL=T+'cluster.cpp'; CLF=[CL,T+'cluster.hpp']
SIF=[T+'site.cpp',T+'site.hpp']
p('C17','Cluster: site occupation probabilities are the stationary solution',
 'For a connected cluster, the reported probabilities of being on each internal site are non-negative, sum to one, and converge (more iterations, tighter tolerance) to the distribution that is unchanged by one more hop inside the cluster conditioned on not leaving it. Stopping by tolerance leaves an imbalance of the order of the tolerance, and n iterations per site means the same as n times the number of sites iterations per cluster. The result does not depend on site order, ids or the unit of time.',
 ['inputs','configurations'],'every connected cluster of at least two sites with mutual internal neighbours, any positive rates, each convergence method with any setting',
 'Tests use symmetric two and three site clusters where the uniform start is already nearly right.',CLF,[('solveMasterEquation_, iterate_',CL)])
p('C18','Cluster: exit probabilities follow from occupation and site hop probabilities',
 'The neighbours of a cluster are exactly the outside sites reachable by one hop from a member, each listed once. The probability of leaving to a neighbour is proportional to the sum over members of the probability of being on the member times the probability of hopping from it to that neighbour, these probabilities sum to one, and the fastest exit rate is the largest single rate from a member to an outside site.',
 ['inputs','configurations'],'every connected cluster with at least one exit, neighbours shared between members or not, any positive rates',
 'Tests use symmetric clusters with two equal exits.',CLF,[('calculateProbabilityHopToNeighbors_',CL),('getFastestRateOffCluster, getSiteIdsNeighboringCluster',CL)])
p('C19','Cluster: escape time constant is mean residence time, increment its fraction',
 'The escape time constant of a cluster equals the mean time per visit (occupation probability times site dwell time, summed over all members) divided by the probability per visit of hopping out. The time increment is always that constant divided by the current resolution, in whatever order resolution and rates are set; multiplying every rate by a factor divides both times by it.',
 ['inputs','configurations','histories'],'every connected cluster with at least one exit, any positive rates, any resolution of at least 2, any order of resolution changes and updates',
 'No test checks the value of the time constant.',CLF,[('calculateEscapeTimeConstant_',CL),('setResolution',T+'cluster.hpp')])
p('C20','Cluster: each walker stays an exponential time, served in bounded increments',
 'A walker in a cluster receives its stay in pieces: each piece is positive and at most one time increment, a piece shorter than the increment is the last one, and the walker is sent to an outside neighbour exactly after its last piece and to a member site before. Total stays are exponentially distributed with the escape time constant as mean, drawn afresh for every new stay (including after the walker was removed), independently of how the steps of other walkers are interleaved.',
 ['histories','schedules','inputs'],'every cluster with an exit, resolution, seed, set of walkers and interleaving of their steps and removals',
 'Tests follow one walker at a time and never remove one in mid-stay.',CLF,[('Cluster::getDwellTime, hopWithinCluster_, pickNewSiteId',CL),('removeWalkerCluster_',CL)],state=[('remaining_walker_dwell_times_','time a walker still has to spend in the cluster',T+'cluster.hpp')])
p('C21','Cluster: sampled moves follow the current probabilities after any change',
 'Moves drawn from a cluster always go to a current member or a current neighbour; member sites are drawn in proportion to occupation probability times dwell time and outside neighbours with the reported exit probabilities. This stays true after rates changed and the cluster was updated, sites were added, or clusters were merged; the same seed and history reproduce the same draws.',
 ['histories','inputs'],'every history of updates, rate changes, additions and merges before the draws, any rates and seeds',
 'Tests never sample from a cluster after it has been updated a second time.',CLF,[('calculateProbabilityHopToInternalSite_, calculateProbabilityHopToNeighbors_',CL),('pickInternalSite_, pickClusterNeighbor_',CL)])
p('C22','Cluster: result depends on members and rates only, not on how it was built',
 'However a cluster came to its set of members (added one at a time or together, with updates in between, by merging other clusters, with rates changed in place before the last update), after an update its member set, occupation and exit probabilities and time constant equal those of a cluster built afresh from the same sites. Merging moves every site exactly once: the target holds the union, marked as its own, and the source is left empty.',
 ['histories','inputs'],'every partition of a connected set of sites into clusters and single sites, every build and merge order, rate changes at any point',
 'The migration test merges one pair of two-site clusters.',CLF,[('migrateSitesFrom, addSite(s), updateProbabilitiesAndTimeConstant',CL)])
p('C23','Cluster: per-site visit counts are estimated consistently and never lost',
 'The visit count of a member site grows with the number of visits to the cluster, each adding the expected number of visits to that site in the mean time a visit to the cluster lasts (one time increment, less for the last part of a stay), up to rounding. It does not depend on how often it is asked for nor on the unit of time, setting it and reading it back returns the value set, and updates and merges keep the counts accumulated so far.',
 ['histories','inputs'],'every cluster with an exit, every history of visits, queries, settings, resolution choices, updates and merges',
 'The unit test compares one cluster for one unit of time with a wide tolerance.',CLF,[('getVisitFrequency/setVisitFrequency',CL)])
p('C24','Cluster: occupancy of the cluster and of each member site agree with history',
 'Given at most one walker per member site at a time, a member site reports occupied exactly while a walker that arrived on it has not yet left or been removed; arrivals and departures on one member never change another. Seen as a whole the cluster reports occupied whenever any member site is occupied and unoccupied once all walkers have left.',
 ['histories'],'every history of arrivals on unoccupied members, departures and removals of walkers, interleaved over the members',
 'Tests do not exercise occupancy of clusters beyond single calls.',CLF,[('occupyCluster_/vacateCluster_/isOccupiedCluster_',CL)])
CG=S+'coarsegrainsystem.cpp'; CGF=[CG,I+'coarsegrainsystem.hpp',S+'basin_explorer.cpp',S+'graph_library_adapter.hpp']
p('C25','System: walkers hop only along rates and never share a site',
 'In a simulated system of any rates and walkers placed on distinct sites, each hop leaves the walker where it is or moves it to its announced next site, the move happens exactly when that site is free, and no two walkers ever occupy the same site. Sites become free again when a walker hops away or is removed, announced sites are reachable (a neighbour, or a member or neighbour of the cluster the walker is in), and dwell times are positive.',
 ['histories','schedules','inputs'],'every connected system, number of walkers, hop schedule, removals, seeds and coarse-graining threshold',
 'Unit tests move one or two walkers on tiny systems for a fixed schedule, and are not even built without the graph submodule.',CGF,[('CoarseGrainSystem::hop, initializeWalkers, removeWalkerFromSystem',CG)])
p('C26','System: a seeded run is reproducible',
 'Two systems given the same seed, rates, settings, walkers and schedule produce the same sequence of sites, dwell times and clusters (clusters compared by their members), however much coarse graining happens and whatever else was simulated in the same process before.',
 ['histories','inputs','configurations'],'every system, seed, threshold, set of walkers and schedule',
 'Tests do not compare two runs.',CGF,[('setRandomSeed and per-feature seeding',CG)])
p('C27','System: coarse graining preserves where walkers go and how long they take',
 'Coarse graining is an approximation that must not bias the physics: for a walker in a basin of fast rates with slow exits, the probability of leaving through each exit, the mean time to leave, the visit counts and the share of time spent on each site (not counting the first time increment after entering a cluster, which is spent on the site of arrival) agree with the exact solution of the master equation within the accuracy the separation of time scales allows. Without clusters (coarse graining disabled) the agreement is exact up to sampling noise. This holds for the walkers of one run as well as for one walker in each of many runs with different seeds.',
 ['inputs','configurations'],'every basin with well separated internal and exit rates, thresholds and time resolutions for which clusters form, and the same with clusters disabled',
 'The regression tests compare one particular 1D and one 3D system visually or with wide tolerances.',CGF+CLF,[('createCluster_, coarseGrain_, hop',CG)])
p('C28','System: every site is in at most one cluster and all views agree',
 'At every point of a simulation the clusters are disjoint connected sets of at least two existing sites with at least one way out, the cluster reported for a site is the one that lists it (unassigned if none does), each cluster has a resolution of at least two and a positive time increment no longer than the time resolution, and membership only ever grows by merging. With coarse graining disabled no cluster ever forms. Visit counts never decrease, and those of a site in no cluster equal the arrivals there (blocked hops count as an arrival on the own site); those of the sites of a cluster that does not change grow in proportion to the arrivals in it.',
 ['histories','inputs','configurations'],'every system, threshold, seed and schedule, including repeated merging of clusters',
 'Tests build one or two clusters and stop.',CGF,[('createCluster_, mergeSitesAndClusters_, getClusters',CG)])
p('C29','System: misuse in the wrong order or with unknown sites is refused',
 'Initialising the system without a time resolution, reading a time resolution that was not set, initialising walkers before the system or on unknown or unassigned sites, and seeding after initialisation are refused with runtime_error; a non-positive time resolution and queries about unknown sites are refused with invalid_argument. A refused call leaves the system usable as if it had not been made (when a list of walkers is refused because of one of them, those before it may have been placed).',
 ['histories','inputs'],'every order of set-up calls with valid and invalid arguments',
 'Tests probe a few of these once.',CGF,[('guards in the public methods',CG)])
p('C30','Basin search finds the sites reachable over the fastest rates, up to a limit',
 'Starting from a site, the basin consists of exactly the sites reachable by hops whose rate is at least the fastest rate off the starting site or, if the start belongs to a cluster, the fastest rate out of that cluster; the start is always included and no site is listed twice. If more sites than the exploration limit (5 unless set otherwise) would be found, the basin is empty. The search changes neither sites nor clusters.',
 ['inputs','configurations'],'every network of sites with rates in both directions, drains, clusters, every start and limit (rates less than one percent below the reference rate are not decided)',
 'The unit test looks at two drawn examples and is not built without the graph submodule.',[S+'basin_explorer.cpp',S+'basin_explorer.hpp'],[('BasinExplorer::findBasin, addEdges_, rateFastEnough_',S+'basin_explorer.cpp')])
p('C31','Graph conversion: each outgoing rate becomes one directed edge of its weight',
 'Converting one or several sites to a graph gives exactly one directed edge per outgoing rate of these sites, from the site to the neighbour, weighted with the rate (or with one over the rate in the time form), in any supported container, and exactly one node per site. The conversion leaves the sites and rates as they were.',
 ['inputs','configurations'],'every container of sites, rates of any magnitude, every choice of sites to convert, every converter',
 'The unit test converts one three-site chain and does not look at weights.',[S+'graph_library_adapter.hpp',S+'graph_library_adapter.cpp'],[('convertSites... functions',S+'graph_library_adapter.hpp')])
p('C32','System: clusters form exactly when due and worthwhile, at the right resolution',
 'Coarse graining is attempted at each hop that brings the hops since the last attempt above the current interval, which starts at the set threshold, doubles after an attempt that changes nothing and returns to the threshold after one that succeeds. Settings changed during a run apply from then on, and setting a threshold restarts the interval at it. An attempt takes the basin of the site the walker was about to enter (at most 5 sites), with every cluster it touches as a whole, and makes it one cluster exactly when it is not one cluster already, the time to leave it (one over the sum of its exit rates) exceeds the performance ratio times twice the longest shortest crossing time inside, and twice that crossing time is below the time resolution; otherwise nothing changes. The resolution of a new or grown cluster is its time constant divided by the larger of twice the crossing time and the time resolution, but at least two.',
 ['histories','inputs','configurations'],'every system, threshold, performance ratio, time resolution and hop history (outcomes hanging on values equal within rounding, or rates within one percent, are not decided)',
 'The unit tests build one or two clusters and never look at when an attempt is made or refused.',CGF,[('hop (attempt interval), coarseGrain_, sitesSatisfyEquilibriumCondition_, getInternalTimeLimit_',CG),('createCluster_, mergeSitesAndClusters_, chooseResolution_',CG)])
p('C33','System: results do not depend on the unit of time',
 'Multiplying all rates by a factor and dividing the time resolution by it changes nothing in a seeded run except that all dwell times and time increments are divided by the factor: the same sites are visited in the same order, the same clusters form at the same hops with the same resolutions, and visit counts are equal.',
 ['inputs','configurations','histories'],'every system, seed, schedule and threshold, factors 2^-60 to 2^60 (powers of two, so that the scaled numbers are exact)',
 'All tests use one unit of time.',CGF+CLF,[('all time-dependent decisions of the system and of clusters',CG)])
p('C34','System: several excluding walkers follow the exact joint master equation',
 'Without coarse graining, walkers that exclude each other, run in the order of their times through the queue, are distributed at any later time over the sites (and drains) exactly as the continuous-time Markov chain of the whole configuration predicts, where a walker moves to a free neighbour at the given rate and stays when the neighbour is taken. The same holds for rates obtained from a lattice and Marcus theory.',
 ['inputs','histories','schedules'],'every network of rates, number of walkers, start and observation time (within sampling error)',
 'Tests never compare the motion of interacting walkers with anything.',CGF+[Q,M,C],[('hop with a taken target, initializeWalkers, removeWalkerFromSystem',CG),('Queue::sortedAdd/pop_current',Q)])
p('C35','Sites and clusters: the printed description shows their state, changes nothing',
 'Printing a site shows its id, cluster id, visit count, escape time constant, and for each neighbour exactly once the rate and the hopping probability, equal (to the digits printed) to what the queries answer. Printing a cluster shows its id, the number of arrivals, the number of members and the description of each member exactly once. Printing twice gives the same text, and no query answers differently afterwards.',
 ['inputs','histories'],'every site with rates and every updated cluster, after any history of visits and memberships',
 'The tests print one site and never look at the text.',CLF+SIF,[('operator<<(ostream,Site)',S+'topologyfeatures/site.cpp'),('operator<<(ostream,Cluster)',S+'topologyfeatures/cluster.cpp')])
p('C36','Sites and clusters: copies equal the original and are independent of it',
 'A copy of a site or cluster, made by construction, assignment (also over an object already used), move or the growth of a vector, answers every query like the original, including occupancy, visits, settings and unfinished stays of walkers, and continues identically (same draws, same picks) when both are taken through the same further history. Using one of them, or destroying the copy, changes no answer of the other.',
 ['histories','inputs'],'every history of a site or cluster before copying and of either one afterwards',
 'No test uses a copied object in the middle of a history; the containers rely on copies.',CLF+SIF,[('copying of TopologyFeature, Site, Cluster (random engine, stays, visits, function pointers)',S+'topologyfeatures/topology_feature.hpp'),('Cluster state',S+'topologyfeatures/cluster.hpp')])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
