"""Texts of the properties; `python3 tools/props.py` writes properties.jsonl
and MANIFEST.json for those that have a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PF = 'multisim/precomp_funs.py'
SE = 'multisim/simenv.py'
PARTS = 'multisim/parts/'


def P(id, title, statement, over, text, tests, files, mech, note):
    return dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech])),
        note=note)


PROPS = [
    P('C01', 'Mass is conserved in the flow network',
      'After every update of the flow network the mass flowing into each '
      'part (each side of a heat exchanger) equals the mass flowing out of '
      'it, whatever leaves a part through a port enters the part connected '
      'there, every pump delivers exactly its set flow in either direction, '
      'and every valve splits or mixes exactly by its opening. The flows '
      'depend only on pump and valve settings of the current step.',
      ['inputs', 'configurations'],
      'all pump flows (both directions) and valve openings, on every network '
      'of supported parts that the topology analysis accepts',
      'The tests construct a few networks and never compare flows; the '
      'balance must hold for every network and all settings at once.',
      [SE, PARTS + 'mixingvalve.py', PARTS + 'pipe_with_valve.py',
       PARTS + 'connector_3w.py', PARTS + 'tes.py',
       PARTS + 'pipe_branched.py'],
      [('per-step network update', SE + ': _update_FlowNet'),
       ('topology analysis', SE + ': _get_topology, _recursive_topology, '
        '_get_topo_cond')],
      'the listed networks; the topology analysis runs concretely per '
      'network, the update symbolically for all settings'),
    P('C03', 'Energy is conserved in every pipe',
      'At every moment of a simulation the heat stored in each cell of a '
      'pipe (plain, pumped, branched, with three-way valve, heated or CHP) '
      'changes at exactly the rate given by the enthalpy the water carries '
      'into and out of the cell, heat conduction to its neighbours and '
      'connected ports, heat exchange with the ambient and the heat put in '
      'by its heat source. Summed over the pipe nothing is created or lost: '
      'what one cell gives off, its neighbour receives, for either flow '
      'direction and any distribution of flow over the branch ports.',
      ['inputs', 'configurations'],
      'all cell, port and ambient temperatures, all port mass flows in both '
      'directions, all admissible numbers of cells and branch positions, '
      'all heat source settings',
      'The tests only build environments and compare a few material and '
      'flow helper values; no temperature derivative is compared with a '
      'balance, and a balance has to hold for every state.',
      [PF, PARTS + 'pipe.py', PARTS + 'pipe_with_pump.py',
       PARTS + 'pipe_branched.py', PARTS + 'pipe_with_valve.py',
       PARTS + 'heated_pipe.py', PARTS + 'chp_plant.py'],
      [('derivative of a pipe with one flow', PF + ': pipe1D_diff'),
       ('derivative of branched pipes', PF + ': pipe1D_branched_diff'),
       ('port conduction', PF + ': _process_ports_collapsed'),
       ('flow directions', PF + ': _process_flow_invar, '
        '_process_flow_var')],
      'all paths of the real derivative functions for the stated pipe sizes; '
      'the heat transfer coefficients are arbitrary positive numbers in all '
      'but one scenario'),
    P('C04', 'Energy is conserved in every thermal storage',
      'At every moment the heat stored in each layer of a thermal storage '
      'changes at exactly the rate given by the water entering and leaving '
      'through the ports of the layer and its neighbours, the exchange '
      'between layers, and the losses through shell and lids to the '
      'ambient. Summed over the storage only port flows, port conduction '
      'and ambient losses change its heat content, whatever the number and '
      'position of its ports and the distribution of charging and '
      'discharging flows.',
      ['inputs', 'configurations'],
      'all layer, port and ambient temperatures, all port flows that sum to '
      'zero, any number and position of ports',
      'No test evaluates a storage derivative; port layouts and flow '
      'patterns cannot be enumerated.',
      [PF, PARTS + 'tes.py'],
      [('derivative of the storage', PF + ': tes_diff'),
       ('flow through layers', PF + ': _process_flow_var'),
       ('lid and shell losses', PF + ': tes_diff, UA_fld_wll_ins_amb_cyl')],
      'all paths of the real derivative function for the stated layer and '
      'port layouts'),
    P('C05', 'Energy is conserved in the discretised heat exchanger',
      'At every moment each cell of the discretised plate heat exchanger '
      '(supply water, plate, demand water) changes its heat content exactly '
      'by the enthalpy of the water passing it, conduction along its side, '
      'and the exchange through the plate, so that heat given off on one '
      'side is received by the plate and then by the other side. Each side '
      'distributes its mass flow evenly over its channels, flow may go in '
      'either direction on each side, and both flows are recorded.',
      ['inputs', 'configurations'],
      'all cell and port temperatures, all pairs of mass flows, any number '
      'of cells, plates and passes',
      'No test builds this part; the balance must hold for all states and '
      'flow directions.',
      [PF, PARTS + 'hex_num.py'],
      [('derivative', PF + ': hexnum_diff'),
       ('flow processing', PF + ': _process_flow_multi_flow'),
       ('port conduction', PF + ': _process_ports_collapsed')],
      'all paths of the real derivative function for the stated cell '
      'numbers; heat transfer coefficients arbitrary positive'),
    P('C15', 'CHP plant keeps its operating rules',
      'A CHP plant never runs below its modulation limit or above full '
      'load, never starts before its minimum standstill time or stops '
      'before its minimum run time except for overtemperature, always stops '
      'at emergency temperature or when overtemperature lasts too long, '
      'never starts with a hot inlet, and changes its load no faster than '
      'its ramp limit. While off it produces no electricity and burns no '
      'gas; while on its electrical, thermal and gas power follow the '
      'modulation, its characteristic curves and the start-up state, and '
      'after a stop only decaying residual heat is delivered.',
      ['inputs', 'histories'],
      'every sequence of requests, temperatures and step sizes (one step '
      'from every state satisfying an invariant that the step preserves)',
      'No test runs a CHP plant; the rules constrain every history of '
      'requests.',
      [PARTS + 'chp_plant.py', PF],
      [('plant state machine', PARTS + 'chp_plant.py: get_diff and the '
        'start-up/shutdown methods'),
       ('characteristic curves', PF + ': chp_thermal_power, chp_gas_power, '
        'chp_startup_*')],
      'induction over steps: one symbolic step from every state that '
      'satisfies the stated invariant, invariant re-established'),
    P('C02', 'Flows inside parts follow the port flows and are recorded',
      'In every step the water flow between neighbouring cells of a part, '
      'upward or downward, is exactly the sum of what its ports put in '
      'before that point, and the flow recorded for the step in the results '
      'of every part (pipe, pump, branched pipe, valve pipe, storage, valve, '
      'connector, discretised heat exchanger) is the flow that passed in '
      'that step, also after a reversal of the flow, when a step is '
      'repeated, and in later steps: nothing of an earlier step remains and '
      'what was recorded earlier is not changed.',
      ['inputs', 'histories', 'configurations'],
      'all sequences of pump flows in both directions and valve openings, '
      'all networks of supported parts',
      'Tests never read recorded flows; errors show only for particular '
      'sequences of flow directions.',
      [PF, SE, PARTS + 'mixingvalve.py', PARTS + 'connector_3w.py',
       PARTS + 'pump.py'],
      [('flow processing', PF + ': _process_flow_invar, _process_flow_var, '
        '_process_flow_multi_flow'),
       ('recording in non-numeric parts', PARTS + 'mixingvalve.py, '
        'connector_3w.py, pump.py: solve')],
      'two consecutive steps from an arbitrary state on the listed '
      'networks'),
    P('C06', 'Heat leaving one part enters the part connected to it',
      'Whatever heat a part exchanges through a port, by water flowing or by '
      'conduction, is exchanged with opposite sign by the part connected '
      'there: both sides see the same conductance, the same mass flow and '
      'the temperatures of each other, so that the heat content of a network '
      'of connected parts changes only through its open boundaries, heat '
      'sources and ambient losses, for either flow direction and all '
      'combinations of pipe sizes and grid spacings.',
      ['inputs', 'configurations'],
      'all temperatures of both parts, all mass flows in both directions, '
      'all pairings of the supported numeric parts',
      'The tests never compare the heat flows of two parts; symmetry of '
      'connections must hold for every state and pairing.',
      [SE, PF, PARTS + 'pipe.py', PARTS + 'tes.py',
       PARTS + 'pipe_branched.py', PARTS + 'pump.py'],
      [('collection of the properties of connected ports',
        SE + ': _get_port_connections, _calc_UAwll_port'),
       ('flow at both sides', SE + ': _update_FlowNet'),
       ('port conduction', PF + ': _process_ports_collapsed'),
       ('differentials', PF + ': pipe1D_diff, pipe1D_branched_diff, '
        'heatedpipe1D_diff, tes_diff, chp_core_diff')],
      'listed pairs of parts with 2 to 4 cells; the discretised heat '
      'exchanger is left out since it models one channel of its sides and '
      'valves, connectors and pumps without grid are C07'),
    P('C07', 'Valves, connectors and pumps pass heat on unchanged',
      'Where flows join (mixing valve, three-way connector) the outlet '
      'carries exactly the enthalpy of the inlets, with the heat capacity of '
      'the outlet taken at the arithmetic mean of the inlet temperatures; '
      'where a flow splits, every outlet has the inlet temperature; a pump '
      'passes both temperatures on unchanged. Ports that are not outlets see '
      'a value between the temperatures connected to the part, for every '
      'combination of flow directions including zero flow, and temperatures '
      'and flows are recorded for the current step.',
      ['inputs'],
      'all temperatures and flows of the three ports, all sign patterns of '
      'the connector flows',
      'No test evaluates these parts; the connector alone has 13 flow '
      'patterns with continuous temperatures and flows in each.',
      [PF, PARTS + 'mixingvalve.py', PARTS + 'connector_3w.py',
       PARTS + 'pump.py'],
      [('mixing and splitting', PF + ': solve_mix, solve_split'),
       ('connector', PF + ': solve_connector_3w'),
       ('pump', PF + ': solve_pump')],
      'all flow patterns'),
    P('C08', 'Plate heat exchanger balances heat and obeys the second law',
      'Whatever the flow directions, the heat given off by one side of the '
      'plate heat exchanger equals the heat taken up by the other, both '
      'outlet temperatures lie between the two inlet temperatures, and they '
      'are those of a counterflow exchanger with the conductance of all its '
      'plates (also for equal heat capacity flows and for very many transfer '
      'units). If one side stands still the other passes unchanged. Inlet '
      'ports show the entering water, and temperatures and flows are '
      'recorded.',
      ['inputs', 'configurations'],
      'all inlet temperatures, both mass flows in both directions and zero, '
      'all positive heat transfer coefficients',
      'No test evaluates the exchanger; its formula has special cases at '
      'isolated ratios and magnitudes of the flows.',
      [PF, PARTS + 'heatexchanger.py'],
      [('exchanger', PF + ': solve_platehex'),
       ('conductance', PF + ': UA_fld_wll_plate, series_circuit_UA')],
      'all branches; exp is an increasing function known only by its order '
      'and unit-point properties'),
    P('C10', 'Adaptive step control keeps tolerance, limits and stability',
      'A solver step is accepted only if its error estimate is within the '
      'tolerances or the step has reached the minimum size; a step found '
      'unstable at its start is never accepted but repeated below the '
      'stability limit. Every repeated try starts from the same '
      'temperatures and port values as the first. Repeated steps shrink as '
      'the error demands but not below the minimum step, the next step never '
      'exceeds the maximum step or the maximum growth factor, growth is '
      'released gradually after an instability, and the simulated time '
      'advances by exactly the step that was taken.',
      ['inputs', 'histories'],
      'all sequences of error estimates and stability verdicts of the tries '
      'of a step, all step sizes and solver settings',
      'Tests never run the solver; the rules concern sequences of rejected '
      'tries.',
      [SE, PF],
      [('step control', SE + ': _heun_adaptive'),
       ('error estimate', PF + ': _heun_corrector_adapt')],
      'up to 2 tries (thorough: 3) with arbitrary derivatives and stability '
      'verdicts'),
    P('C11', 'An accepted step is a Heun step with exchanged port values',
      'In an accepted step every explicitly solved part goes from its last '
      'result by the mean of the slopes at the start and at the predictor, '
      'where the predictor slope of a part is evaluated with the predictor '
      'temperatures of its neighbours. Afterwards the port values equal the '
      'new results, boundary conditions are untouched, earlier results stay '
      'as they were, and the system error is the root mean square over all '
      'grid points of the tolerance-weighted difference of the two stages.',
      ['inputs', 'configurations'],
      'all start temperatures, slopes and step sizes, all networks',
      'Tests never run the solver.',
      [SE, PF],
      [('stages', SE + ': _heun_adaptive'),
       ('corrector', PF + ': _heun_corrector_adapt'),
       ('port exchange', PF + ': _upddate_ports_interm, '
        '_upddate_ports_result; ' + SE + ': _create_port_updater')],
      'one accepted step with arbitrary slopes on the listed networks; '
      'implicitly solved parts are outside'),
    P('C12', 'PID controllers follow their control law within all limits',
      'Every control step of a PID controller computes its output from the '
      'current and past deviations of the measured value from its set point '
      'by the law it was configured with (discrete velocity form or '
      'continuous, with or without filtered derivative, inverted or not). '
      'The output never leaves its saturation, never changes faster than the '
      'allowed slope, the integral never exceeds the windup limit, a dead '
      'time delays exactly the measured value, a reference part shifts the '
      'set point, and a sub controller is off whenever its master demands.',
      ['inputs', 'histories'],
      'all measured values, set points, gains, limits, step sizes and '
      'controller states',
      'Controllers are not run by any test; the law has to hold for every '
      'state a history can leave behind.',
      ['multisim/controls.py', PARTS + 'controllers.py', PF],
      [('control step', 'multisim/controls.py: ctrl, '
        '_clip_cv_to_saturation, _subcontroller_check'),
       ('PID', PARTS + 'controllers.py: PID.run_controller'),
       ('dead time', PF + ': ctrl_deadtime')],
      'one step from every state and two steps from the start; dead time '
      'over three steps'),
    P('C13', 'Two-position controllers switch and hold as configured',
      'A bang-bang controller switches on below and off above the edges of '
      'its hysteresis (reversed if configured) and keeps its output in '
      'between. A two-sensor controller switches on by the first and off by '
      'the second sensor, where off wins, and otherwise keeps its output. '
      'Inversion applies to the switched values only, and a sub controller '
      'is off whenever its master demands.',
      ['inputs', 'histories'],
      'all sequences of measured values, set points and master states',
      'No test runs these controllers; holding an output is a property of '
      'sequences.',
      ['multisim/controls.py', PARTS + 'controllers.py'],
      [('switching', PARTS + 'controllers.py: BangBang.run_controller, '
        'TwoSensors.run_controller'),
       ('common step', 'multisim/controls.py: ctrl')],
      'three steps from every output state'),
    P('C14', 'Actuators take the controller output but never leave their '
      'limits',
      'Whatever a controller puts out, the actuator takes exactly that value '
      'limited to the range given when it was built: pumps their flow, '
      'valves their opening (with the openings of the two ports always '
      'summing to one), heat sources their power and CHP plants their '
      'modulation. The flow set at a pump is the flow carried by the '
      'network, and the heat set at a heated pipe goes evenly into its '
      'heated cells and is recorded.',
      ['inputs', 'configurations'],
      'all controller outputs and limits, every kind of actuator',
      'No test lets a controller act on an actuator.',
      ['multisim/controls.py', PARTS + 'mixingvalve.py',
       PARTS + 'pipe_with_valve.py', PARTS + 'pump.py',
       PARTS + 'pipe_with_pump.py', PARTS + 'heated_pipe.py',
       PARTS + 'chp_plant.py'],
      [('part specific limits', 'multisim/parts: _process_cv methods'),
       ('direct limits', 'multisim/controls.py: _process_cv_direct')],
      'one control step per kind of actuator'),
    P('C09', 'Unstable steps are detected and never accepted as stable',
      'A step of any part is reported unstable exactly when its Courant '
      'number (any port flow; storages: inflows and flows between cells) '
      'exceeds 1 or a diffusion number (between cells, to the ports, to the '
      'ambient or through the plates) exceeds 1/2, evaluated with the '
      'largest density or heat capacity of the part where the code says so. '
      'The step then suggested is at most 95 % of the limit of every such '
      'mechanism and never larger than what another part suggested before, '
      'a stable part never clears the verdict of another one or touches the '
      'suggestion, and the step growth limit is only tightened and never '
      'below 1.05.',
      ['inputs', 'configurations'],
      'all flows, conductances, step sizes and prior verdicts, every part '
      'type integrated explicitly',
      'Tests only check stability numbers of one pipe at one state.',
      [PF, PARTS + 'pipe.py', PARTS + 'tes.py', PARTS + 'hex_num.py'],
      [('stability numbers', PF + ': _vonNeumann_stability_*')],
      '3 cells (quick), 5 (thorough); water properties at fixed '
      'temperatures; heat exchanger with one group of quantities symbolic '
      'at a time'),
    P('C16', 'Time series act at the right time and place',
      'A time series given for an open port, a part variable, a controller '
      'set point, a pump, a valve or a CHP plant starts with its first '
      'sample and then, at every simulation step, has the value linearly '
      'interpolated at the time reached when the step is not longer than '
      'its sampling interval, and for longer steps a value averaged from '
      'the samples passed and therefore within their range. Its position '
      'never drifts from the simulation clock, whatever the sequence of '
      'step sizes, and nothing but the assigned location changes (a valve '
      'also sets the complement at its other port).',
      ['inputs', 'histories'],
      'all sample values, sampling intervals and sequences of step sizes, '
      'every kind of location',
      'No test uses a dynamic boundary condition.',
      ['multisim/simenv.py'],
      [('value of a step', 'multisim/simenv.py: _update_dyn_BC'),
       ('assignment', 'multisim/simenv.py: add_dynamic_boundary_condition '
        'and _initialize_dynamic_BC')],
      'series of up to 6 samples, up to 3 steps; running past the end of '
      'the series is outside'),
    P('C20', 'Steps are ordered, timed and recorded completely',
      'Each time step first distributes the flows from the outputs of the '
      'controllers and the boundary conditions valid at its start, runs the '
      'solver once, lets every controller act once with the accepted step '
      'and its results, and then advances the boundary conditions. '
      'The time axis is the running sum of the accepted steps, the '
      'simulation stops at the first time reaching the time frame, and the '
      'results hold exactly one row per time stamp for every part, with '
      'earlier rows unchanged, also when the result arrays had to be '
      'enlarged on the way.',
      ['inputs', 'histories'],
      'all accepted step sizes and part results, with and without '
      'controllers and boundary conditions, before and after enlarging',
      'Tests only compare final values of fixed runs.',
      ['multisim/simenv.py'],
      [('step loop', 'multisim/simenv.py: start_sim and its helpers'),
       ('result arrays', 'multisim/simenv.py: _initialize_arrays, '
        '_finalize_sim')],
      'up to 4 steps of symbolic size, the solver replaced by an arbitrary '
      'one; disk storage and text output outside'),
    P('C17', 'Heat losses and conduction follow geometry, layers and films',
      'At every evaluation the conductance of each cell of a pipe or storage '
      'to the ambient is that of inner film, wall, insulation and outer film '
      'in series for a cylinder (lids: for a plane), is positive and never '
      'exceeds that of the outer film alone; the surface temperature lies '
      'between fluid and ambient. Neighbouring cells are connected by the '
      'water of both halves in series plus the wall, with buoyancy only where '
      'warmer water lies below colder water, nothing lies beyond the first '
      'and the last cell, and a port conducts through both half cells. The '
      'film coefficients are those of the Nusselt correlations for the '
      'current flow, temperature, and geometry, in laminar, transition and '
      'turbulent flow and for either flow direction; this includes the '
      'lids of storages and the plates of the discretised heat exchanger.',
      ['inputs', 'histories'],
      'all temperatures, flows and film coefficients, any state left by '
      'earlier evaluations, every kind of pipe and storage',
      'Tests compare a few final temperatures with stored values.',
      ['multisim/precomp_funs.py', 'multisim/simenv.py',
       'multisim/parts/pipe.py',
       'multisim/parts/tes.py'],
      [('conductances', 'multisim/precomp_funs.py: pipe1D_diff, tes_diff and '
        'the other *_diff functions, UA_*, cylinder/plane films'),
       ('geometry', 'multisim/simenv.py and multisim/parts: radii, areas, '
        'layer terms')],
      'parts of 2-4 cells, geometry as built; in the conductance scenarios '
      'the films are arbitrary positive values, in the film scenarios the '
      'correlations run for real'),
    P('C18', 'Fluid properties are right and the same everywhere',
      'Density, heat capacity, conductivity, viscosity, Prandtl number and '
      'expansion coefficient of water (1 to 99 degC) and conductivity, '
      'viscosity and density of dry air (-30 to 110 degC) agree with '
      'tabulated values at every temperature, rise or fall with temperature '
      'as the fluid does, and fit each other; enthalpy c_p*T rises with temperature. The '
      'returning and the array-filling form of each function, and the forms '
      'used by the simulation and by the meters, give the same value '
      'for every cell. Reynolds and Rayleigh numbers are those of their '
      'definitions. Conductances in series and in parallel combine as circuits do, and '
      'moving averages average exactly their window.',
      ['inputs'],
      'every temperature of the range, pairs of temperatures, all '
      'conductances and series values',
      'No test calls the property functions.',
      ['multisim/precomp_funs.py',
       'multisim/_precompiled/material_properties.py',
       'multisim/_precompiled/dimensionless_numbers.py'],
      [('fluid properties', 'multisim/precomp_funs.py and '
        'multisim/_precompiled/material_properties.py: *_water, *_dryair'),
       ('helpers', 'multisim/precomp_funs.py: series_circuit_UA, '
        'parallel_circuit_UA, moving_avg and relatives')],
      'deviations of .3 % (density) to 6 % (Prandtl number) from the tables '
      'are allowed; series of 6 values, '
      'windows up to 4'),
    P('C19', 'Meters report the recorded flow, temperature and heat',
      'A temperature, massflow or volumeflow sensor at any cell of any part '
      'reads for every recorded step exactly what was recorded for that '
      'cell, with the massflow of the flow channel the cell belongs to and '
      'the density at the temperature of the cell. A heat meter reports '
      'temperatures, massflow of the chosen side, volume flow, power '
      'massflow * mean heat capacity * temperature difference, and as '
      'cumulated mass, volume and heat the sums of these over the step '
      'lengths (in the full output also of their positive part alone), in '
      'both of its tables. Meters do not change results, and never '
      'replace another meter of the same kind and name.',
      ['inputs'],
      'all recorded temperatures and flows, all cells, every kind of part',
      'No test uses meters.',
      ['multisim/_utility/meters.py', 'multisim/simenv.py',
       'multisim/_precompiled/material_properties.py'],
      [('readings', 'multisim/_utility/meters.py: Meters'),
       ('cell to channel', 'multisim/simenv.py: '
        '_massflow_idx_from_temp_idx')],
      'four recorded steps (three in the full output, thorough four) of '
      'irregular concrete length, pandas itself runs for real on symbolic '
      'values; resampling and disk storage outside'),
    P('C21', 'Validation error measures follow their definitions',
      'For every pair of measured and simulated series, MSE, MAE, MSD '
      '(simulated minus measured), RMSE, CV(RMSE), their forms normalised by '
      'mean, median, interquartile range or range, and R^2 equal their '
      'definitions, separately for each column; rolling MSE, MAE and MSD '
      'average exactly the centred window and are undefined where it has too '
      'few samples; '
      'RMSE is never negative, R^2 never exceeds 1, and adjusted R^2 never '
      'exceeds R^2 and is the same from data and from R^2.',
      ['inputs'],
      'all values of one and of several columns on either side',
      'No test calls them.',
      ['multisim/_utility/stat_error_measures.py'],
      [('measures', 'multisim/_utility/stat_error_measures.py')],
      'series of 3-4 samples, up to two columns, numpy arrays; windows of '
      '1-4 samples; rolling mean and describe of pandas replaced by their '
      'definition'),
    P('C22', 'Condensing flue gas heat exchanger follows its regression',
      'For every trained model, inlet temperatures and flows, the outlet '
      'temperatures of water and flue gas are the linear combination of the '
      'principal components of the polynomial features of the scaled inputs; '
      'below a tenth of the nominal water flow a parabola joins this value '
      'to the flue gas inlet temperature at standstill. A flow below its '
      'range counts as the nearer of zero and the lower bound, water above '
      'its range bypasses the exchanger and is mixed in by enthalpy, and '
      'without flow on either side outlets equal inlets. Temperatures and '
      'the unclipped flows are recorded in the row of the current step only.',
      ['inputs'],
      'all coefficients of the regression, temperatures, flows and ranges',
      'No test covers the part.',
      ['multisim/precomp_funs.py'],
      [('evaluation', PF + ': condensing_hex_solve, condensing_hex_quad_poly'),
       ('regression', PF + ': transform_to_poly_nb, transform_pca_nb, '
        'poly_tranfs_pred')],
      'polynomials up to degree two in the four inputs, three components, '
      'flows not negative; functions called directly (the part itself cannot '
      'be built with the installed scikit-learn)'),
]

GUARANTEE = ('Bounded symbolic execution of the current /repo source: every '
             'path within the stated bounds, every obligation refuted or '
             'confirmed by z3 over the reals, counterexamples replayed on the '
             'unmodified code. ')


def claimed():
    return [p for p in PROPS if os.path.exists(os.path.join(
        ROOT, 'checks', p['prop']['id'].lower() + '.py'))]


NOT_APPLICABLE = [
]


def main():
    ps = sorted(claimed(), key=lambda p: p['prop']['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in ps:
            assert len(p['prop']['title']) <= 80
            f.write(json.dumps(p['prop']) + '\n')
        for p, _ in NOT_APPLICABLE:
            f.write(json.dumps(p) + '\n')
    man = dict(
        version=1, setup_cmd='bash setup.sh',
        checks=[dict(
            property=p['prop']['id'],
            quick_cmd='bash check.sh check %s quick' % p['prop']['id'],
            thorough_cmd='bash check.sh check %s thorough' % p['prop']['id'],
            technique='symbolic execution of the real Python code + SMT '
            '(z3)', level='other', level_note=GUARANTEE + p['note'])
            for p in ps],
        not_applicable=[dict(property=p['id'], reason=r)
                        for p, r in NOT_APPLICABLE])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
