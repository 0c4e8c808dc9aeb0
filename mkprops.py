import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
L='src/thunder/src/'; T='src/thunder/thunder_robot_template/'
p('C01','Frame poses, Jacobians and their rates describe one and the same motion',
 'For every configured serial arm (revolute, prismatic and elastic joints, any base frame, tool frame and runtime kinematic parameters) and along every motion fed to the model, the reported frame poses are those of the configured chain at the joint state most recently accepted, and every reported Jacobian (joint frames, centres of mass, end effector) maps the joint velocity onto the linear and angular velocity that frame actually has. The reported first and second end-effector Jacobian derivatives are the true time derivatives of the reported Jacobian along that motion, and the pseudo-inverse is the damped inverse of the Jacobian of that same instant. Late, lost, repeated or reordered state messages may make the answer old, never inconsistent.',
 ['configurations','histories','fault_sequences'],'every arm configuration, every joint trajectory over simulated time, every delivery order / loss / duplication / restart of the node that holds the model',
 'The repository tests only check that outputs of a few fixed arms at a single state are finite; no pose, Jacobian or derivative value is asserted, and nothing is ever moved through time.',
 [L+'kinematics.cpp',L+'dynamics.cpp',L+'robot.cpp',T+'thunder_robot.cpp',L+'utils.cpp'],
 [dict(name='DH chain, frame transforms, geometric Jacobians, directional derivatives',where=L+'kinematics.cpp'),dict(name='centre-of-mass Jacobians',where=L+'dynamics.cpp DHJacCM'),dict(name='generated query wrappers',where=L+'utils.cpp change_to_robot')],
 observe=['get_T_*','get_J_*','get_J_ee_dot','get_J_ee_ddot','get_J_ee_pinv','get_J_cm_*','Robot::get'])
p('C02','Mechanical energy is conserved by the reported dynamics along every motion',
 'For every configured arm with physically meaningful inertial parameters, the reported mass matrix is symmetric positive definite and, along every motion, the power the reported mass, Coriolis and gravity terms ask for equals the rate of change of the arm\'s kinetic plus potential energy; both Coriolis formulations do no work and agree with each other as forces. An arm simulated with the reported terms therefore neither gains nor loses energy except through applied torques. The reported first and second time derivatives of the mass, Coriolis and gravity terms are the derivatives of the reported terms along that same motion.',
 ['configurations','histories','fault_sequences'],'every arm, every inertial/gravity/base-frame parameter vector accepted at run time, every trajectory and torque-command history (including stalled, lost, repeated and delayed commands)',
 'Tests evaluate the dynamics once, at rest, for two arms, and assert only finiteness and one gravity identity; energy behaviour, velocity-dependent terms and derivatives are never exercised.',
 [L+'dynamics.cpp',L+'kinematics.cpp',L+'robot.cpp'],
 [dict(name='mass/Coriolis/gravity assembly',where=L+'dynamics.cpp compute_MCG, stdCmatrix, stdCmatrix_classic'),dict(name='time derivatives',where=L+'dynamics.cpp compute_dyn_derivatives')],
 observe=['get_M','get_C','get_C_std','get_G','get_M_dot','get_M_ddot','get_C_dot','get_C_ddot','get_G_dot','get_G_ddot'])
p('C03','Regressors reproduce the dynamics, so adaptive control stays stable',
 'At every joint, velocity and reference state, and after any history of parameter updates, the regressor times the linear parameter vector equals mass times reference acceleration plus Coriolis times reference velocity plus gravity, separately for each term regressor and for their sum; the kinematic, friction and motor regressors are the sensitivities of the quantities they are named after, with respect to the runtime parameters in their documented order. Hence an adaptive controller built on the library never increases its Lyapunov function while its messages flow, and recovers once message faults and controller restarts stop.',
 ['configurations','histories','fault_sequences'],'every arm, state, reference, parameter history; closed adaptive loops in simulated time under loss, duplication, delay, stalls and controller crash/restart from saved parameters',
 'The only value test compares one torque at zero velocity and zero reference acceleration for two arms, so mass and Coriolis regressors, kinematic and motor regressors and any closed-loop behaviour are untested.',
 [L+'regressors.cpp',L+'dynamics.cpp',L+'robot.cpp',T+'thunder_robot.cpp'],
 [dict(name='regressor construction',where=L+'regressors.cpp compute_Yr, compute_reg_J, compute_reg_Dl, compute_reg_elastic'),dict(name='parameter conversion',where='update_inertial_REG / update_inertial_DYN')],
 observe=['get_Yr','get_reg_M','get_reg_C','get_reg_G','get_reg_Jdq','get_reg_JTw','get_reg_dl','get_reg_k','get_reg_d','get_reg_dm','get_reg_Mm'])
p('C04','Friction only dissipates and springs only store energy, on the right joint',
 'For every arm with link friction or elastic joints, each friction and damping torque opposes its own velocity for non-negative coefficients of every polynomial order, and each elastic torque is an odd function of the deflection between the motor and the very joint that motor drives, wherever the elastic joints sit in the chain, so that in a simulated motor/link system the energy exchanged through springs balances and friction only removes energy. The order-by-order coefficient matrices, the motor inertia matrix and the friction, stiffness, damping and motor regressors describe exactly the same torques.',
 ['configurations','histories'],'every placement of elastic joints in the chain, every polynomial order, every coefficient and motor/link state history over simulated time',
 'Tests only print or check finiteness for one arm in which all joints are elastic with first-order stiffness.',
 [L+'dynamics.cpp',L+'regressors.cpp',L+'robot.cpp'],
 [dict(name='elastic coupling and friction polynomials',where=L+'dynamics.cpp compute_elastic, compute_Dl'),dict(name='elastic parameter parsing',where=L+'robot.cpp parse_config, load_conf_par')],
 observe=['get_k','get_d','get_dm','get_dl','get_K*','get_D*','get_Dm*','get_Dl*','get_Mm'])
p('C05','Every answer reflects exactly the inputs last accepted by that instance',
 'Whatever sequence of state, reference and parameter messages reaches an arm model, every query answers from the last accepted value of every input and from nothing else: not from rejected messages, other instances, earlier queries or the order in which inputs arrived. A message of the wrong dimension is refused, visibly for the sender, without any effect on any later answer. Copies and restarted instances evolve independently.',
 ['histories','fault_sequences','configurations'],'every interleaving of setter, loader, query, copy, destroy and restart operations over several instances, with duplicated, reordered, dropped and malformed messages',
 'Tests run one straight-line sequence of valid calls on one instance; rejected inputs, several instances, repeated updates and restarts are never exercised.',
 [T+'thunder_robot.cpp',T+'thunder_robot.h',L+'robot.cpp',L+'utils.cpp'],
 [dict(name='size-checked setters',where=T+'thunder_robot.cpp set_*'),dict(name='argument map',where=L+'robot.cpp set_*, get, set_arg'),dict(name='generated query wrappers',where=L+'utils.cpp change_to_robot')],
 observe=['all set_*, get_*'])
p('C06','The two inertial parameter sets never disagree',
 'After any history of setting or loading either the standard inertial parameters (mass, centre of mass, inertia at the centre of mass) or the linear ones (mass, first moment, inertia at the joint frame), both sets read back from the same instance describe the same bodies, unless the caller explicitly asked for them not to be synchronised, in which case only the addressed set changes. A refused update changes neither.',
 ['histories','fault_sequences','configurations'],'every sequence of set/load calls on either set, with and without synchronisation, valid and malformed, interleaved over instances and restarts',
 'Tests load one configuration once and never change a parameter set afterwards, so every later conversion in either direction is unexercised.',
 [T+'thunder_robot.cpp',L+'robot.cpp'],
 [dict(name='conversion and its triggers',where='update_inertial_DYN, update_inertial_REG, set_par_DYN, set_par_REG, load_par_REG, load_conf (both classes)')],
 observe=['get_par_DYN','get_par_REG'])
p('C07','Runtime parameters behave exactly like the same values fixed at generation',
 'For every choice of which kinematic, frame, gravity, inertial, friction and elastic parameters are left adjustable at run time (all, some or none of a group), any history of updates to the adjustable ones leaves the library answering exactly as a library generated with those values fixed in its configuration. Parameters not left adjustable keep the configured value whatever is set or loaded at run time.',
 ['configurations','histories'],'every per-entry selection of adjustable parameters, every history of parameter updates and queries',
 'Tests use two selections only (all inertial parameters adjustable, or none) and never update a parameter.',
 [L+'robot.cpp',L+'utils.cpp',T+'thunder_robot.cpp',L+'kinematics.cpp',L+'dynamics.cpp',L+'regressors.cpp'],
 [dict(name='symbolic selectivity',where=L+'robot.cpp subs_symb_par, obtain_symb_parameters, update_symb_parameters, add_function'),dict(name='packed parameter loading',where=T+'thunder_robot.cpp load_conf')],
 observe=['all queries','set_par_*','load_conf'])
p('C08','Instances are thread-safe: concurrent use equals sequential use',
 'When several threads work at the same time, each on its own instance of a generated arm (of the same or of different arms), or only query a shared instance nobody is changing, every result of every thread is bit for bit the one it would have obtained running alone. This holds for every interleaving of the threads, down to individual memory accesses, including threads that start, stall, restart or finish at any point.',
 ['schedules'],'every interleaving of the memory accesses of concurrent queries, setters and loaders on distinct instances and of queries on a shared constant instance',
 'Tests are single-threaded, so scratch memory shared between threads cannot be noticed.',
 [L+'utils.cpp',T+'thunder_robot.cpp'],
 [dict(name='per-thread scratch buffers in generated queries',where=L+'utils.cpp change_to_robot')],observe=['all generated get_*'])
p('C09','Saved parameters survive a restart exactly',
 'Parameters saved by any save operation of the library or of a generated arm and loaded by its matching load operation into a fresh instance after a restart come back exactly, to the last bit, for every finite value, and that instance then answers exactly as the one that saved. The files the generator writes next to a library restore the configured parameters in the same way. Interrupted system calls and short reads or writes during saving or loading do not alter this.',
 ['histories','crash_points','fault_sequences','inputs'],'every parameter history before the save, every finite value, every restart after the save, every pattern of short or interrupted reads and writes, every saver/loader pair',
 'Tests load one hand-written file and never save and reload.',
 [T+'thunder_robot.cpp',L+'robot.cpp'],
 [dict(name='YAML writers and readers',where='save_par, save_par_REG, save_par_DYN, load_par, load_par_REG, load_conf, load_conf_par, save_conf')],
 observe=['save_*','load_*','get_par_*'])
p('C10','A load that fails leaves the model unchanged and usable',
 'When loading parameters or a configuration into a live model fails (missing or unreadable file, read error part-way, a file cut off by a crash or damaged, or a file for something else), the failure is reported and every parameter and every later answer is as if the load had never been attempted. A load that reports no failure leaves only values that were in the file or were there before, never uninitialised or mixed-up ones, and a later load of an intact file fully recovers.',
 ['fault_sequences','crash_points','histories'],'every point at which a read can fail and every truncation point of a parameter file, at any place in a history of loads, updates and queries',
 'Tests only load intact files; the existing error paths are never executed.',
 [T+'thunder_robot.cpp',L+'robot.cpp'],
 [dict(name='loaders and their exception handling',where='load_conf, load_par_REG, load_conf_par, load_par')],
 observe=['load_*','get_par_*','queries after a failed load'])
p('C11','A save that reports success has stored everything',
 'Whenever saving parameters or a configuration, from the library or from a generated arm, reports success (its return value or its confirmation message), the file at the requested path holds the complete data and loads back to exactly the saved values; if the file could not be opened or any part of it could not be written, the save does not report success. A save never alters the model it saves or any other file.',
 ['fault_sequences'],'every disk fault (open failure, full disk or write error after any number of bytes, error on close, short and interrupted writes) at every operation of a save',
 'Tests never save under a failing disk; return values of saves are not checked.',
 [T+'thunder_robot.cpp',L+'robot.cpp'],
 [dict(name='stream writes and returned status',where='save_par, save_conf, save_par_REG, save_par_DYN')],
 observe=['return values and confirmation messages of save_*'])
p('C12','Interrupted generation is repaired by simply running it again',
 'If the generator is killed, or the machine loses power, at any point of a run, running the same command again in the same place produces exactly the same library files as a run that was never interrupted, whatever partial, stale, oversized or empty files the interrupted or any earlier run left behind, and for every generator option.',
 ['crash_points','histories'],'every crash point of every generation (between and inside file operations), every subset of unflushed data lost, any sequence of such crashes and of earlier generations, before the final run',
 'Tests generate twice at most, without interruption.',
 ['src/thunder/thunder_main.cpp',L+'utils.cpp',L+'robot.cpp'],
 [dict(name='artifact writing',where='thunder_main.cpp main, copy_to; utils.cpp change_to_robot, update_cmake; robot.cpp generate_library, save_conf, save_par_REG')],
 observe=['<robot>_generatedFiles/ after re-running'])
p('C13','The generator claims success only for a complete library',
 'The generator announces that a library was generated (or copied into the companion project) only if every file of that library (or copy) is present and identical to the one an undisturbed run produces from the same configuration; after any disk error, full disk, missing template, or unreadable or cut-off configuration it does not announce success. It never modifies its inputs.',
 ['fault_sequences','configurations'],'every disk operation of a run failing in every way (open, read, write, close, copy, directory creation), full disk after any number of bytes, configuration files cut at any byte',
 'Tests only generate on a healthy disk from intact configurations.',
 ['src/thunder/thunder_main.cpp',L+'utils.cpp',L+'robot.cpp'],
 [dict(name='error handling of the command line tool',where='thunder_main.cpp main, copy_to; robot.cpp robot_from_file, load_conf_par, save_*')],
 observe=['standard output and exit status of `thunder gen`','generated files'])
p('C14','Generation depends only on the configuration and the command line',
 'For the same configuration and options the generator always produces byte-identical files, independently of earlier generations in the same place, of other generators running at the same time for other arms, of the time of day and clock jumps, of short or interrupted reads and writes, of memory addresses and of the process environment. Generating one arm never touches the files of another, and the files compile and answer as the configured arm, also when the libraries of several arms are used side by side in one program.',
 ['schedules','configurations','histories','fault_sequences'],'every interleaving of the file operations of concurrent generators, every prior directory content, clock, environment and transient I/O behaviour',
 'Tests generate each arm once, alone, in one environment, and never compare two generations.',
 ['src/thunder/thunder_main.cpp',L+'utils.cpp',L+'robot.cpp'],
 [dict(name='generation pipeline',where='thunder_main.cpp main; robot.cpp generate_library; utils.cpp change_to_robot')],
 observe=['<robot>_generatedFiles/'])
p('C15','The inertial converter is exact where it must be and bounded where it is random',
 'For every sequence of random numbers the converter draws, the files it labels unperturbed hold exactly the source inertial data expressed in the Denavit-Hartenberg frames (standard and linear form), and in each perturbed file every underlying parameter of every link is its unperturbed value scaled by its own independent random factor of the labelled percentage, zero staying zero. The same holds for the two parameter files genInertial_files derives from a configuration. A success message for a file implies that the file is complete and is what the source says, whatever disk errors occur and however the source is cut or damaged; a source that lacks data of a link is refused.',
 ['histories','fault_sequences'],'every outcome of the random source and every disk fault during conversion',
 'No test runs the converter; its output depends on hardware randomness, so a test could not check it.',
 ['src/genYAML/main_YAML.cpp','src/genYAML/src/urdf2dh_inertial.cpp','src/thunder/src/genYaml.cpp'],
 [dict(name='frame change, perturbation, linear form',where='main_YAML.cpp main, perturbateLinkProp; urdf2dh_inertial.cpp transformBodyInertial')],
 observe=['generatedFiles/inertial_DH*.yaml','standard output'])
p('C16','Functions added to an arm are exported and answer like built-in ones',
 'Any function added to an arm at run time, in any order and also replacing an earlier one when asked to, is from then on answered by that arm from its last accepted inputs and is part of the library generated afterwards, under its name and with the same values; a refused replacement changes nothing, and adding functions never changes the answers of the others.',
 ['histories','programs'],'every sequence of added, replaced and refused functions, interleaved with state updates and queries',
 'Tests add no functions.',
 [L+'robot.cpp',L+'userDefined.cpp',L+'utils.cpp'],
 [dict(name='function registry',where=L+'robot.cpp add_function, get_functions, get, generate_library')],
 observe=['Robot::add_function','Robot::get','Robot::get_functions'])
p('C17','Python bindings expose the same behaviour as the generated class',
 'Every setter, query, loader and saver of a generated arm, also of functions added to it, is available in its Python module under the same name and, however it is called (positional, keyword and default arguments, wrong sizes, failing files), has the same effect, result, message and error as on the generated class. Any sequence of calls on any number of objects leaves them in the same state as the same sequence on the class.',
 ['configurations','histories','fault_sequences'],'every configured arm generated with the Python option, every sequence of calls on its objects and every disk fault during loading and saving',
 'The bindings are never built by the tests.',
 [L+'utils.cpp','src/thunder/thunder_main.cpp'],[dict(name='binding template',where=L+'utils.cpp add_bindings_template')],observe=['generated thunder_<robot>_py module'])
p('C18','Merging two rigid bodies preserves mass, first moment and inertia',
 'Merging the inertial data of two bodies expressed in the same frame yields the body with their total mass, common centre of mass and total inertia about it.',
 ['inputs'],'every pair of bodies',
 'No test calls it.',
 [L+'utils.cpp','src/genYAML/src/urdf2dh_inertial.cpp'],[dict(name='mergeBodyInertial',where=L+'utils.cpp')],observe=['mergeBodyInertial'])
p('C19','A configuration is obeyed as a whole or refused as a whole',
 'Whatever the text of a robot configuration (hand-edited, cut, torn between two versions, damaged on disk), the library either builds exactly the arm the text describes - its joints, orders, every value and every runtime-adjustable parameter, whatever the notation - or refuses it with a message; a text in which something an arm needs is missing, contradictory or not a number (an element too few or too many in a list, an unknown joint type, missing links or elastic joints, a joint count that does not match) is always refused. The generator decides like the library, and neither crashes, hangs, lets values that do not stand in the text into the arm, nor affects an arm that already exists.',
 ['inputs','fault_sequences','histories'],'every configuration text, every damage to it, every read fault, every sequence of attempts in one process',
 'Tests only load a few intact configurations.',
 [L+'robot.cpp',L+'FrameOffset.cpp',L+'utils.cpp','src/thunder/thunder_main.cpp'],
 [dict(name='configuration parsing',where=L+'robot.cpp parse_config, load_conf_par, robot_from_file'),dict(name='command line',where='thunder_main.cpp main')],
 observe=['robot_from_file','Robot::Robot','thunder gen'])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
