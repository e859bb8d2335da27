# How components are loaded from documents.  Interpreted, never executed.


@spec("parameters._activation_functions.BinaryStepParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._activation_functions.RectifierParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._activation_functions.LogisticParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._control_curves.ControlCurveInterpolatedParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    control_curves = super(ControlCurveInterpolatedParameter, cls)._load_control_curves(model, data)
    storage_node = super(ControlCurveInterpolatedParameter, cls)._load_storage_node(model, data)
    if 'parameters' in data:
        parameters = [load_parameter(model, p) for p in data.pop('parameters')]
        values = None
    else:
        values = load_parameter_values(model, data)
        parameters = None
    return cls(model, storage_node, control_curves, values=values, parameters=parameters, **data)


@spec("parameters._control_curves.ControlCurvePiecewiseInterpolatedParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    control_curves = super(ControlCurvePiecewiseInterpolatedParameter, cls)._load_control_curves(model, data)
    storage_node = super(ControlCurvePiecewiseInterpolatedParameter, cls)._load_storage_node(model, data)
    values = load_parameter_values(model, data)
    return cls(model, storage_node, control_curves, values=values, **data)


@spec("parameters._control_curves.ControlCurveIndexParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    storage_node = model.nodes[data.pop('storage_node')]
    control_curves = [load_parameter(model, d) for d in data.pop('control_curves')]
    return cls(model, storage_node, control_curves, **data)


@spec("parameters._control_curves.ControlCurveParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    control_curves = super(ControlCurveParameter, cls)._load_control_curves(model, data)
    storage_node = super(ControlCurveParameter, cls)._load_storage_node(model, data)
    parameters = None
    values = None
    if 'values' in data:
        values = load_parameter_values(model, data)
    elif 'parameters' in data:
        parameters_data = data.pop('parameters')
        parameters = []
        for pdata in parameters_data:
            parameters.append(load_parameter(model, pdata))
    return cls(model, storage_node, control_curves, values=values, parameters=parameters, **data)


@spec("parameters._control_curves.WeightedAverageProfileParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    storages = [model.nodes[n] for n in data.pop('storages')]
    profiles = [load_parameter(model, p) for p in data.pop('profiles')]
    return cls(model, storages, profiles, **data)


@spec("parameters._hydropower.HydropowerTargetParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    target = load_parameter(model, data.pop('target'))
    if 'water_elevation_parameter' in data:
        water_elevation_parameter = load_parameter(model, data.pop('water_elevation_parameter'))
    else:
        water_elevation_parameter = None
    if 'max_flow' in data:
        max_flow = load_parameter(model, data.pop('max_flow'))
    else:
        max_flow = None
    if 'min_flow' in data:
        min_flow = load_parameter(model, data.pop('min_flow'))
    else:
        min_flow = None
    return cls(model, target, water_elevation_parameter=water_elevation_parameter, max_flow=max_flow, min_flow=min_flow, **data)


@spec("parameters._parameters.Parameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scenario = data.pop('scenario', None)
    values = load_parameter_values(model, data)
    data.pop('values', None)
    data.pop('url', None)
    name = data.pop('name', None)
    comment = data.pop('comment', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
        return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
    return cls(model, values=values, name=name, comment=comment, **data)


@spec("parameters._parameters.ConstantParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    if 'value' in data:
        value = data.pop('value')
    else:
        value = load_parameter_values(model, data)
    parameter = cls(model, value, **data)
    return parameter


@spec("parameters._parameters.DataFrameParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scenario = data.pop('scenario', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
    timestep_offset = data.pop('timestep_offset', 0)
    df = load_dataframe(model, data)
    return cls(model, df, scenario=scenario, timestep_offset=timestep_offset, **data)


@spec("parameters._parameters.TablesArrayParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scenario = data.pop('scenario', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
    url = data.pop('url')
    if not os.path.isabs(url) and model.path is not None:
        url = os.path.join(model.path, url)
    node = data.pop('node')
    where = data.pop('where', '/')
    checksums = data.pop('checksum', {})
    for algo, hash in checksums.items():
        model.check_hash(url, hash, algorithm=algo)
    return cls(model, url, node, where=where, scenario=scenario, **data)


@spec("parameters._parameters.ArrayIndexedScenarioMonthlyFactorsParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scenario = data.pop('scenario', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
    if isinstance(data['values'], list):
        values = np.asarray(data.pop('values'), np.float64)
    else:
        if not isinstance(data['values'], dict):
            raise TypeError('Unexpected type for "values" in {}'.format(cls.__name__))
        values = load_parameter_values(model, data.pop('values'))
    if isinstance(data['factors'], list):
        factors = np.asarray(data.pop('factors'), np.float64)
    else:
        if not isinstance(data['factors'], dict):
            raise TypeError('Unexpected type for "factors" in {}'.format(cls.__name__))
        factors = load_parameter_values(model, data.pop('factors'))
    return cls(model, scenario, values, factors, **data)


@spec("parameters._parameters.UniformDrawdownProfileParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._parameters.RbfProfileParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._parameters.IndexedArrayParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    index_parameter = load_parameter(model, data.pop('index_parameter'))
    try:
        parameters = data.pop('params')
    except KeyError:
        parameters = data.pop('parameters')
    parameters = [load_parameter(model, parameter_data) for parameter_data in parameters]
    return cls(model, index_parameter, parameters, **data)


@spec("parameters._parameters.AnnualHarmonicSeriesParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    mean = data.pop('mean')
    amplitudes = data.pop('amplitudes')
    phases = data.pop('phases')
    return cls(model, mean, amplitudes, phases, **data)


@spec("parameters._parameters.AggregatedParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameters_data = data.pop('parameters')
    parameters = []
    for pdata in parameters_data:
        parameter = load_parameter(model, pdata)
        parameters.append(wrap_const(model, parameter))
    agg_func = data.pop('agg_func', None)
    return cls(model, parameters=parameters, agg_func=agg_func, **data)


@spec("parameters._parameters.AggregatedIndexParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameters_data = data.pop('parameters')
    parameters = list()
    for pdata in parameters_data:
        parameter = load_parameter(model, pdata)
        parameters.append(wrap_const(model, parameter))
    agg_func = data.pop('agg_func', None)
    return cls(model, parameters=parameters, agg_func=agg_func, **data)


@spec("parameters._parameters.DivisionParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    numerator = load_parameter(model, data.pop('numerator'))
    denominator = load_parameter(model, data.pop('denominator'))
    return cls(model, numerator, denominator, **data)


@spec("parameters._parameters.NegativeParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("parameters._parameters.MaxParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("parameters._parameters.MinParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("parameters._parameters.OffsetParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("parameters._parameters.DeficitParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    return cls(model, node=node, **data)


@spec("parameters._parameters.FlowParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    return cls(model, node=node, **data)


@spec("parameters._parameters.StorageParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    storage_node = model.nodes[data.pop('storage_node')]
    return cls(model, storage_node=storage_node, **data)


@spec("parameters._parameters.PiecewiseIntegralParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("parameters._parameters.FlowDelayParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    return cls(model, node, **data)


@spec("parameters._parameters.DiscountFactorParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters._parameters.RollingMeanFlowNodeParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    return cls(model, node, **data)


@spec("parameters._polynomial.Polynomial1DParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = None
    if 'node' in data:
        node = model.nodes[data.pop('node')]
    storage_node = None
    if 'storage_node' in data:
        storage_node = model.nodes[data.pop('storage_node')]
    parameter = None
    if 'parameter' in data:
        parameter = load_parameter(model, data.pop('parameter'))
    coefficients = data.pop('coefficients')
    parameter = cls(model, coefficients, node=node, storage_node=storage_node, parameter=parameter, **data)
    return parameter


@spec("parameters._polynomial.Polynomial2DStorageParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    storage_node = model.nodes[data.pop('storage_node')]
    parameter = load_parameter(model, data.pop('parameter'))
    coefficients = data.pop('coefficients')
    parameter = cls(model, coefficients, storage_node, parameter, **data)
    return parameter


@spec("parameters._thresholds.StorageThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('storage_node')]
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, node, threshold, values=values, predicate=predicate, **data)


@spec("parameters._thresholds.NodeThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, node, threshold, values=values, predicate=predicate, **data)


@spec("parameters._thresholds.MultipleThresholdIndexParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    thresholds = [load_parameter(model, d) for d in data.pop('thresholds')]
    return cls(model, node, thresholds, **data)


@spec("parameters._thresholds.MultipleThresholdParameterIndexParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    thresholds = [load_parameter(model, d) for d in data.pop('thresholds')]
    return cls(model, parameter, thresholds, **data)


@spec("parameters._thresholds.ParameterThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    param = load_parameter(model, data.pop('parameter'))
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, param, threshold, values=values, predicate=predicate, **data)


@spec("parameters._thresholds.RecorderThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    recorder = load_recorder(model, data.pop('recorder'))
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, recorder, threshold, values=values, predicate=predicate, **data)


@spec("parameters._thresholds.CurrentYearThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, threshold, values=values, predicate=predicate, **data)


@spec("parameters._thresholds.CurrentOrdinalDayThresholdParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    threshold = load_parameter(model, data.pop('threshold'))
    values = data.pop('values', None)
    predicate = data.pop('predicate', None)
    return cls(model, threshold, values=values, predicate=predicate, **data)


@spec("parameters.licenses.TimestepLicense", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    amount = data.pop('amount')
    return cls(model, node, amount=amount, **data)


@spec("parameters.licenses.StorageLicense", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    amount = data.pop('amount')
    return cls(model, node, amount=amount, **data)


@spec("parameters.multi_model_parameters.OtherModelParameterValueParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters.multi_model_parameters.OtherModelIndexParameterValueIndexParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters.multi_model_parameters.OtherModelNodeFlowParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters.multi_model_parameters.OtherModelNodeStorageParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    return cls(model, **data)


@spec("parameters.parameters.ScaledProfileParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scale = float(data.pop('scale'))
    profile = load_parameter(model, data.pop('profile'))
    return cls(model, scale, profile, **data)


@spec("parameters.parameters.InterpolatedParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    x = np.array(data.pop('x'))
    y = np.array(data.pop('y'))
    interp_kwargs = data.pop('interp_kwargs', None)
    return cls(model, parameter, x, y, interp_kwargs=interp_kwargs, **data)


@spec("parameters.parameters.InterpolatedVolumeParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    volumes = data.pop('volumes')
    if isinstance(volumes, list):
        volumes = np.asarray(volumes, np.float64)
    else:
        if not isinstance(volumes, dict):
            raise TypeError('Unexpected type for "volumes" in {}'.format(cls.__name__))
        volumes = load_parameter_values(model, volumes)
    values = data.pop('values')
    if isinstance(values, list):
        values = np.asarray(values, np.float64)
    else:
        if not isinstance(values, dict):
            raise TypeError('Unexpected type for "values" in {}'.format(cls.__name__))
        values = load_parameter_values(model, values)
    interp_kwargs = data.pop('interp_kwargs', None)
    return cls(model, node, volumes, values, interp_kwargs=interp_kwargs, **data)


@spec("parameters.parameters.InterpolatedFlowParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    flows = np.array(data.pop('flows'))
    values = np.array(data.pop('values'))
    interp_kwargs = data.pop('interp_kwargs', None)
    return cls(model, node, flows, values, interp_kwargs=interp_kwargs, **data)


@spec("parameters.parameters.InterpolatedQuadratureParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    upper_parameter = load_parameter(model, data.pop('upper_parameter'))
    lower_parameter = load_parameter(model, data.pop('lower_parameter', None))
    x = np.array(data.pop('x'))
    y = np.array(data.pop('y'))
    interp_kwargs = data.pop('interp_kwargs', None)
    return cls(model, upper_parameter, x, y, lower_parameter=lower_parameter, interp_kwargs=interp_kwargs, **data)


@spec("parameters.parameters.ScenarioWrapperParameter", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    scenario = model.scenarios[data.pop('scenario')]
    parameters = [load_parameter(model, p) for p in data.pop('parameters')]
    return cls(model, scenario, parameters, **data)


@spec("recorders._hydropower.HydropowerRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    if 'water_elevation_parameter' in data:
        water_elevation_parameter = load_parameter(model, data.pop('water_elevation_parameter'))
    else:
        water_elevation_parameter = None
    return cls(model, node, water_elevation_parameter=water_elevation_parameter, **data)


@spec("recorders._hydropower.TotalHydroEnergyRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    if 'water_elevation_parameter' in data:
        water_elevation_parameter = load_parameter(model, data.pop('water_elevation_parameter'))
    else:
        water_elevation_parameter = None
    return cls(model, node, water_elevation_parameter=water_elevation_parameter, **data)


@spec("recorders._recorders.Recorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    try:
        node_name = data['node']
    except KeyError:
        pass
    else:
        data['node'] = model.nodes[node_name]
    return cls(model, **data)


@spec("recorders._recorders.AggregatedRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    recorder_names = data.pop('recorders')
    recorders = [load_recorder(model, name) for name in recorder_names]
    rec = cls(model, recorders, **data)
    return rec


@spec("recorders._recorders.ParameterRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    try:
        node_name = data['node']
    except KeyError:
        node = None
    else:
        del data['node']
        node = model.nodes[node_name]
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("recorders._recorders.IndexParameterRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, parameter, **data)


@spec("recorders._recorders.FlowDurationCurveDeviationRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    percentiles = data.pop('percentiles')
    scenario = data.pop('scenario', None)
    if scenario is not None:
        scenario = model.scenarios[scenario]
    upper_target_fdc = data.pop('upper_target_fdc', None)
    if isinstance(upper_target_fdc, dict):
        upper_target_fdc.update({'indexes': percentiles})
        upper_target_fdc = load_parameter_values(model, upper_target_fdc)
    lower_target_fdc = data.pop('lower_target_fdc', None)
    if isinstance(lower_target_fdc, dict):
        lower_target_fdc.update({'indexes': percentiles})
        lower_target_fdc = load_parameter_values(model, lower_target_fdc)
    return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc, scenario=scenario, **data)


@spec("recorders._recorders.NumpyArrayNormalisedStorageRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    node = model.nodes[data.pop('node')]
    parameter = load_parameter(model, data.pop('parameter'))
    return cls(model, node=node, parameter=parameter, **data)


@spec("recorders._recorders.RollingWindowParameterRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameter = load_parameter(model, data.pop('parameter'))
    window = int(data.pop('window'))
    return cls(model, parameter, window, **data)


@spec("recorders._recorders.RollingMeanFlowNodeRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    name = data.pop('name', None)
    node = model.nodes[data.pop('node')]
    if 'timesteps' in data:
        timesteps = int(data.pop('timesteps'))
    else:
        timesteps = None
    if 'days' in data:
        days = int(data.pop('days'))
    else:
        days = None
    return cls(model, node, timesteps=timesteps, days=days, name=name, **data)


@spec("recorders._recorders.AnnualCountIndexThresholdRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    parameters = [load_parameter(model, p) for p in data.pop('parameters')]
    return cls(model, parameters=parameters, **data)


@spec("recorders._recorders.AnnualTotalFlowRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    nodes = [model.nodes[n] for n in data.pop('nodes')]
    return cls(model, nodes=nodes, **data)


@spec("recorders._tables_recorders.TablesRecorder2", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    url = data.pop('url')
    if not os.path.isabs(url) and model.path is not None:
        url = os.path.join(model.path, url)
    return cls(model, url, **data)


@spec("recorders.events.EventRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    threshold = data.pop('threshold')
    try:
        threshold = load_parameter(model, threshold)
    except KeyError:
        threshold = load_recorder(model, threshold)
    tracked_param = data.pop('tracked_parameter', None)
    if tracked_param:
        tracked_param = load_parameter(model, tracked_param)
    return cls(model, threshold, tracked_parameter=tracked_param, **data)


@spec("recorders.events.EventDurationRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    event_rec = load_recorder(model, data.pop('event_recorder'))
    return cls(model, event_rec, **data)


@spec("recorders.events.EventStatisticRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    event_rec = load_recorder(model, data.pop('event_recorder'))
    return cls(model, event_rec, **data)


@spec("recorders.recorders.CSVRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    url = data.pop('url')
    if not os.path.isabs(url) and model.path is not None:
        url = os.path.join(model.path, url)
    return cls(model, url, **data)


@spec("recorders.recorders.TablesRecorder", "load", props="C11", keep="load_parameter load_recorder load_parameter_values load_dataframe _load_control_curves _load_storage_node load get_recorder_from_registry", calls="cls", ret=False)
def f(cls, model, data):
    url = data.pop('url')
    if not os.path.isabs(url) and model.path is not None:
        url = os.path.join(model.path, url)
    return cls(model, url, **data)


@spec("parameters._control_curves.BaseControlCurveParameter", "_load_control_curves", props="C11", keep="load_parameter", calls="load_parameter")
def f(cls, model, data):
    control_curves = []
    if 'control_curve' in data:
        control_curves.append(load_parameter(model, data.pop('control_curve')))
    elif 'control_curves' in data:
        for pdata in data.pop('control_curves'):
            control_curves.append(load_parameter(model, pdata))
    return control_curves


@spec("parameters._control_curves.BaseControlCurveParameter", "_load_storage_node", props="C11", keep="load_parameter")
def f(cls, model, data):
    return model.nodes[data.pop('storage_node')]


@spec("_model.Model", "_get_node_from_ref", props="C24")
def f(cls, model, node_name):
    return model.nodes[node_name]
