import json
S="src/lamberthub/"
ALLF=[S+f for f in ("p_solvers/gauss.py","p_solvers/battin.py","p_solvers/jiang.py","p_solvers/pan.py","universal_solvers/gooding.py","universal_solvers/der.py","series_solvers/thorne.py","ecc_solvers/avanzini.py","universal_solvers/arora.py","universal_solvers/vallado.py","universal_solvers/izzo.py","universal_solvers/negrete.py","universal_solvers/mcelreath.py","regularization/delatorre.py")]
def F(*n): return [f for f in ALLF if any("/"+x+".py" in f for x in n)]
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

add("C01","Every solver rejects invalid problems before computing anything",
 "Whatever the other arguments are, every solver raises ValueError when the gravitational parameter or the time of flight is not positive, when the number of revolutions is negative, when either position vector is null or not three-dimensional, or when both position vectors are equal. It raises it for valid problems never on these grounds.",
 ["inputs"],"all real mu, tof, components of r1 and r2, all integers M, all vector shapes, both senses of motion, every solver",
 "The tests call the assertion helpers with one bad value each, and no solver with a bad second vector; the rejection must hold for every solver and every combination of signs.",
 [S+"utils/assertions.py"]+ALLF,[("assert_parameters_are_valid",S+"utils/assertions.py"),("its call at the top of each solver","each solver module")],["exception type of each solver call"])
add("C02","Unsupported revolution counts are refused, never answered with another orbit",
 "A solver that is not listed as a multi-revolution solver raises ValueError for every number of revolutions above zero. A solver listed as a multi-revolution one never refuses a request only because the number of revolutions is positive.",
 ["inputs","configurations"],"every solver, every M >= 1, every geometry, time of flight and flags",
 "The existing tests check three solvers with one M and one geometry; silently returning the direct transfer for M > 0 passes them.",
 [S+"__init__.py"]+ALLF,[("M > 0 guards","gauss, battin, jiang, pan, thorne, avanzini, vallado"),("MULTI_REV_SOLVERS",S+"__init__.py")],["exception or returned velocities"])
add("C03","Collinear positions never produce made-up or non-finite velocities",
 "When the position vectors are collinear the orbital plane is undefined, so a solver raises ValueError or RuntimeError; it never returns non-finite velocities. The only other allowed outcome, for vectors with the same direction, is a finite rectilinear pair along that direction.",
 ["inputs"],"r2 = c r1 with any real c other than 0 and 1, any r1, mu, tof, sense of motion, every solver",
 "Tests cover three solvers for a single 0 degree case and three for a single 180 degree case; divisions by a null cross product give NaN without any exception.",
 [S+"utils/angles.py",S+"utils/assertions.py",S+"ecc_solvers/utils.py"]+ALLF,[("assert_transfer_angle_not_zero / _not_pi",S+"utils/assertions.py"),("collinear branch of get_transfer_angle",S+"utils/angles.py")])
add("C04","Transfer angle and orbit normal follow geometry and sense of motion",
 "For non-collinear positions the transfer angle lies in (0, 2 pi), has the cosine of the angle between the positions, and adds up to 2 pi between prograde and retrograde motion. The orbit normal is a unit vector perpendicular to both positions, right-handed for the transfer angle, whose component along the z axis is non-negative for prograde and non-positive for retrograde motion, and the prograde and retrograde normals are opposite, polar planes included.",
 ["inputs"],"all pairs of non-collinear vectors in 3-D, both senses",
 "Tests only look at two collinear pairs; quadrant and sign conventions must hold for every orientation including planes containing the z axis.",
 [S+"utils/angles.py",S+"linalg.py"],[("get_transfer_angle",S+"utils/angles.py"),("get_orbit_normal_vector",S+"utils/angles.py"),("dot, cross, norm",S+"linalg.py")])
add("C05","Inclination and node of the transfer plane match its normal",
 "The inclination (in [0, pi]) and right ascension of the ascending node (in [0, 2 pi)) reported for a pair of positions and a sense of motion reproduce the unit normal of the transfer plane, (sin i sin raan, -sin i cos raan, cos i). Retrograde motion in the reference plane therefore has an inclination of pi.",
 ["inputs"],"all pairs of non-collinear vectors in 3-D, both senses, inclined, polar and coplanar planes",
 "There is no test of this routine; it is only reached through one solver on a few inclined cases.",
 [S+"utils/angles.py"],[("get_orbit_inc_and_raan_from_position_vectors",S+"utils/angles.py")])
add("C06","Returned motion has the requested sense at both positions",
 "For every solver, the angular momentum r x v of the returned velocities at both positions is perpendicular to the transfer plane and points to the side requested: non-negative z component for prograde, non-positive for retrograde, with opposite directions for the two requests. This includes transfers whose plane contains the z axis.",
 ["inputs","configurations"],"all non-collinear geometries in 3-D, mu, tof for which the solver returns, both senses, M in 0..2 where supported, every solver",
 "Tests use a handful of geometries with published velocities; sign slips that only matter beyond 180 degrees, for r1 x r2 pointing down, or in polar planes are not reached.",
 ALLF+[S+"utils/angles.py"],[("transfer angle / normal conventions",S+"utils/angles.py"),("velocity reconstruction","each solver")])
con="The two states (r1, v1) and (r2, v2) returned have the same angular momentum vector, the same orbital energy and the same eccentricity vector, so both positions lie on one and the same conic. This holds for every value the solver's free parameter may converge to, not only at the exact root."
conwhy="Tests compare with published velocities of a few cases to 1e-3; a wrong coefficient that cancels for equal radii, for transfer angles under 180 degrees or for elliptic orbits passes them."
conover="all non-collinear 3-D geometries, mu > 0, every converged value of the free parameter, both senses, M in 0..2 where supported"
add("C07","Gauss, Battin, Jiang and Pan return two states of one and the same conic","For these solvers: "+con[0].lower()+con[1:],["inputs"],conover,conwhy,F("gauss","battin","jiang","pan"),[("f, g, f_dot, g_dot and perifocal reconstruction","end of each solver")])
add("C08","Universal-variable solvers return two states of one and the same conic","For Gooding, Izzo, Der, Arora, Vallado, Negrete and McElreath: "+con[0].lower()+con[1:],["inputs"],conover,conwhy,F("gooding","izzo","der","arora","vallado","negrete","mcelreath"),[("velocity reconstruction","end of each solver")])
add("C09","Thorne, Avanzini and De la Torre return two states of one and the same conic","For these solvers: "+con[0].lower()+con[1:],["inputs"],conover,conwhy,F("thorne","avanzini","delatorre")+[S+"ecc_solvers/utils.py",S+"utils/elements.py"],[("velocity reconstruction","end of each solver"),("coe_at_eccT",S+"ecc_solvers/utils.py"),("coe2rv",S+"utils/elements.py")])
tofs="the time Kepler's equation gives to go from r1 to r2 along the conic of the returned velocities, in the returned sense and in less than one revolution, is the requested time of flight, up to the requested tolerances. Elliptic arcs on both sides of apoapsis, transfers beyond 180 degrees and hyperbolic arcs are included."
tofwhy="Tests check a few published cases, nearly all short elliptic arcs; each solver has separate branches for hyperbolic, near-parabolic, beyond-apoapsis and beyond-180-degree arcs whose equations the tests hardly reach."
tofover="all geometries in the orbit plane, mu > 0, tof > 0 for which the solver returns, both senses, M = 0"
add("C10","Direct transfers take the requested time: Gooding, Izzo, Der, Arora","For these solvers and M = 0, "+tofs,["inputs"],tofover,tofwhy,F("gooding","izzo","der","arora"),[("time of flight equations","tlamb, _tof_equation_y, _tof_elliptic/_tof_hyperbolic, _get_TOF/_get_W")])
add("C11","Direct transfers take the requested time: Vallado, Negrete, McElreath, DelaTorre","For these solvers and M = 0, "+tofs,["inputs"],tofover,tofwhy,F("vallado","negrete","mcelreath","delatorre")+[S+"utils/stumpff.py"],[("time of flight equations","_tof_vallado, _tof_at_z, _tof_equation, _tof_equation_y")])
add("C12","Direct transfers take the requested time: the other solvers","For Jiang, Pan, Thorne, Avanzini, Gauss and Battin and M = 0, "+tofs,["inputs"],tofover,tofwhy,F("jiang","pan","thorne","avanzini","gauss","battin")+[S+"ecc_solvers/utils.py",S+"utils/kepler.py",S+"utils/angles.py"],[("time of flight equations","_tof_elliptic, _tof_hyperbolic, _tof_from_elements, lagrange_tof, kepler_tof_at_eccT, Gauss' equations")])
add("C13","Multi-revolution transfers take the requested time in the requested revolutions",
 "For M >= 1, every multi-revolution solver that returns gives velocities whose elliptic orbit takes exactly M full revolutions plus the transfer arc in the requested time of flight, up to the requested tolerances. When the time of flight is below the minimum for M it raises ValueError instead.",
 ["inputs"],"all geometries in the orbit plane, mu > 0, tof > 0, M in 1..3, both senses and both paths, every multi-revolution solver",
 "Tests use one article with M = 1 and two M = 2 cases; the M dependence of each time equation and infeasibility test must hold for every M.",
 F("gooding","izzo","der","arora","negrete","mcelreath","delatorre"),[("M terms of the time of flight equations","each solver"),("minimum time checks","each solver")])
add("C14","The low and high path flags select the two distinct multi-revolution branches",
 "For M >= 1 the low path is the solution on the side of the minimum-time transfer with the smaller eccentric anomaly sweep and the high path the one on the other side, for every multi-revolution solver alike. For M = 0 the flag has no influence on the solution.",
 ["inputs","configurations"],"all geometries, mu, feasible tof, M in 1..3, both senses, every multi-revolution solver",
 "Tests compare both branches for two published geometries only; brackets and starters depend on geometry and M.",
 F("gooding","izzo","der","arora","negrete","mcelreath","delatorre"),[("branch brackets and starters","each solver")])
add("C15","A solution that has not converged is never returned",
 "For every iteration limit and tolerances, a solver that exhausts its iterations without meeting its convergence test raises ValueError or RuntimeError, or finishes with a bracketing method that did converge. It never hands out the last iterate as if it were a solution.",
 ["inputs","histories"],"any maxiter >= 1, any positive tolerances, any state the iteration may be in after any number of steps, every iterative solver",
 "Tests set maxiter=1 for two solvers; the others' exhaustion paths are never executed, and what they return depends on the iteration history.",
 ALLF,[("for/else exits of the iterations","each solver"),("converged flags","each solver")])
add("C16","Stumpff functions are accurate over their whole range",
 "The second and third Stumpff functions agree with their defining power series, to close to machine precision, for every argument, in the trigonometric, hyperbolic and near-zero regimes. In particular they satisfy c2 = 1/2 - psi c4 and c3 = 1/6 - psi c5 and are continuous where regimes meet.",
 ["inputs"],"every real psi (series regime: all |psi| up to the switch)",
 "Tests check one value per regime; a wrong term of the series or a shifted switch only shows near the switch.",
 [S+"utils/stumpff.py"],[("c2, c3",S+"utils/stumpff.py")])
add("C17","Anomaly conversions are exact inverses and satisfy the conic relations",
 "True to eccentric and hyperbolic anomaly conversions and their inverses are mutual inverses, modulo full turns, and satisfy cos nu = (cos E - e)/(1 - e cos E), sin nu = sqrt(1 - e^2) sin E/(1 - e cos E) and their hyperbolic counterparts; the parabolic anomaly is tan(nu/2) and its inverse recovers nu. Signs are kept, for arrivals and departures alike.",
 ["inputs"],"every anomaly on the conic and every eccentricity in its range",
 "Tests check one value per conic, with positive anomaly and one eccentricity each.",
 [S+"utils/angles.py"],[("nu_to_E, E_to_nu, nu_to_H, H_to_nu, nu_to_B, B_to_nu",S+"utils/angles.py")])
add("C18","Mean anomaly obeys Kepler's area law for every conic",
 "The mean anomaly as a function of true anomaly vanishes at periapsis, is odd, and its rate of change is proportional to the square of the distance to the focus, with the standard constant for elliptic, parabolic and hyperbolic orbits. Negative eccentricities raise ValueError.",
 ["inputs"],"every eccentricity e >= 0 and every true anomaly on the conic",
 "Tests compare one published value per conic.",
 [S+"utils/kepler.py",S+"utils/angles.py"],[("kepler_from_nu, kepler_elliptic, kepler_parabolic, kepler_hyperbolic",S+"utils/kepler.py")])
add("C19","Elements to state conversion places the state on the described orbit",
 "The state obtained from classical elements has semi-latus rectum, eccentricity vector, inclination, node, argument of periapsis and true anomaly equal to those given, for every elliptic, parabolic or hyperbolic set. The elementary rotation matrices used are proper rotations by the given angle about the given axis.",
 ["inputs"],"every gravitational parameter, p > 0, e >= 0, all angles",
 "Tests compare a few published states; the conversion must be exact for all quadrants of all angles.",
 [S+"utils/elements.py"],[("coe2rv, rv_pqw, coe_rotation_matrix, rotation_matrix",S+"utils/elements.py")])
add("C20","State to elements conversion is the inverse of elements to state",
 "The elements obtained from a non-rectilinear, non-parabolic state and converted back give the same state, for inclined and equatorial, prograde and retrograde, circular and non-circular, elliptic and hyperbolic orbits. Angles are reported in [0, 2 pi) except the true anomaly, in [-pi, pi).",
 ["inputs"],"all states with non-zero angular momentum, all orientations, within each of the regimes the routine distinguishes",
 "Tests compare four tabulated states, none retrograde or hyperbolic.",
 [S+"utils/elements.py",S+"utils/angles.py"],[("rv2coe, coe2rv",S+"utils/elements.py")])
add("C21","Near-parabolic regimes use expansions that agree with the closed forms",
 "Every solver that switches to a series, a polynomial or an exact parabola close to the parabolic orbit agrees there with the closed form of its time equation, far below its default tolerances, and so is seamless where the regimes meet: transfers next to the parabola, on both sides, take the requested time as exactly as others do.",
 ["inputs"],"every value of the free parameter inside the switch band, every transfer geometry parameter, M = 0",
 "Near-parabolic transfers are a thin set the published cases never hit; an altered series coefficient is invisible to them.",
 F("gooding","izzo","arora","negrete","delatorre")+[S+"utils/stumpff.py"],[("tlamb series","gooding"),("hyp2f1b","izzo"),("_get_W polynomial","arora"),("_stumpff_series","negrete"),("_stumpff","delatorre"),("parabolic branch","jiang"),("parabolic branch","thorne"),("parabolic branch","pan")])
add("C22","Solvers are pure: inputs are never modified and results do not depend on history",
 "No solver writes into the position vectors it is given, and the result of a call depends on its arguments only: asking for the full output or having made other calls before does not change the velocities. The returned velocities are new arrays, not views of the inputs.",
 ["inputs","histories"],"any arguments, any sequence of previous calls, full_output on and off, every solver",
 "Tests build fresh arrays for every call and never look at them afterwards.",
 ALLF,[("all solver bodies","each solver")])
add("C23","All solvers share one calling convention and full output",
 "Every solver accepts the same documented arguments and returns the initial and final velocities, and with full_output exactly the velocities, an iteration count that is an integer of at least zero, and a time per iteration. The flag never changes the velocities.",
 ["inputs","configurations"],"every solver, any problem it solves, full_output on and off, any maxiter",
 "No test requests the full output of most solvers.",
 ALLF+[S+"__init__.py"],[("full_output returns","each solver")])
add("C24","Benchmark report ranks and speedups are those of the measured medians",
 "Within each case the solvers are ranked 1..n by increasing median time, each row shows the speedup of its median relative to the slowest solver of the same case, and every benchmark of the reports appears exactly once, in its group and scenario. Updating the README replaces the previous section only and is idempotent.",
 ["inputs","histories"],"any medians (symbolic), up to 3 solvers in up to 2 cases in any order, README with or without a previous section",
 "There are no tests for the report script.",
 ["scripts/generate_benchmark_report.py"],[("_rank_within_case, _speedup_within_case, sorted_benchmarks, build_section, update_readme","scripts/generate_benchmark_report.py")])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
