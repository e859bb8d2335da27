# Recorders that write files.  Interpreted, never executed.


@spec("recorders._tables_recorders.TablesRecorder2", "_node_attribute", props="C16")
def f(node):
    if isinstance(node, AbstractStorage):
        return ('max_volume', 'volume', 'min_volume')
    if isinstance(node, AbstractNode):
        return ('max_flow', 'flow', 'min_flow')
    if isinstance(node, IndexParameter):
        return (None, 'parameter_index', None)
    if isinstance(node, Parameter):
        return (None, 'parameter', None)
    raise ValueError("Unrecognised Node type '{}' for TablesRecorder".format(type(node)))


@spec("recorders._tables_recorders.TablesRecorder2", "setup", props="C16")
def f(self):
    from pywr.parameters import IndexParameter
    import tables
    scenario_shape = list(self.model.scenarios.shape)
    shape = [len(self.model.timestepper)] + scenario_shape
    self.h5store = H5Store(self.h5file, self.filter_kwds, self.mode, title=self.title, metadata={'PYWR_FORMAT': 2, 'PYWR_VERSION': 1, **self.metadata}, create_directories=self.create_directories)
    self._node_arrays = {}
    self._storage_node_arrays = {}
    self._parameter_arrays = {}
    self._index_parameter_arrays = {}
    if self.nodes is None:
        items = [((self.where + '/' + n.name).replace('//', '/'), n) for n in self.model.nodes.values()]
    else:
        items = []
        for n in self.nodes:
            if isinstance(n, (tuple, list)):
                where, node = n
            else:
                node = n
                where = self.where + '/' + (node if isinstance(node, str) else node.name)
            if isinstance(node, str):
                node = self.model.nodes[node]
            where = where.replace('//', '/')
            items.append((where, node))
    if self.parameters is not None:
        items.extend(self.parameters)
    if self.buffer_timesteps is not None:
        self._buffer_num_timesteps = min(self.buffer_timesteps, len(self.model.timestepper))
    elif self.buffer_size is not None:
        total_buffer_values = self.buffer_size * 1024 * 1024 / 8 / 3
        buffer_per_item = total_buffer_values // len(items)
        self._buffer_num_timesteps = min(max(1, int(buffer_per_item // np.prod(scenario_shape))), len(self.model.timestepper))
    else:
        self._buffer_num_timesteps = 1
    self._nodes = []
    self._storage_nodes = []
    self._parameters = []
    self._index_parameters = []
    for where, item in items:
        if isinstance(item, IndexParameter):
            atom = tables.Int32Atom()
        else:
            atom = tables.Float64Atom()
        group_name = where
        if group_name == '':
            group_name = '/'
        node_attributes = self._node_attribute(item)
        for attr in node_attributes:
            if attr is not None:
                carray = self.h5store.file.create_carray(group_name, attr, atom, shape, createparents=True)
                carray._v_attrs['PYWR_ATTRIBUTE'] = attr
                carray._v_attrs['PYWR_TYPE'] = item.__class__.__name__
        if isinstance(item, AbstractStorage):
            self._storage_nodes.append((where, item))
        elif isinstance(item, AbstractNode):
            self._nodes.append((where, item))
        elif isinstance(item, IndexParameter):
            self._index_parameters.append((where, item))
        else:
            if not isinstance(item, Parameter):
                raise ValueError("Unrecognised type '{}' for TablesRecorder".format(type(item)))
            self._parameters.append((where, item))
    if self.scenarios is not None:
        group_name, node_name = self.scenarios.rsplit('/', 1)
        if group_name == '':
            group_name = '/'
        description = {'name': tables.StringCol(1024), 'size': tables.Int64Col()}
        tbl = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
        entry = tbl.row
        for scenario in self.model.scenarios.scenarios:
            entry['name'] = scenario.name.encode('utf-8')
            entry['size'] = scenario.size
            entry.append()
        tbl.flush()
        ensemble_names = [scenario.ensemble_names for scenario in self.model.scenarios.scenarios]
        if len(ensemble_names) > 0:
            indices = [[str(ensemble_names[n][i]) for n, i in enumerate(scenario_index.indices)] for scenario_index in self.model.scenarios.get_combinations()]
            _ = self.h5store.file.create_carray('/', 'scenario_ensemble_names', obj=indices)
        if self.model.scenarios.user_combinations is not None:
            combs = np.array(self.model.scenarios.user_combinations, dtype=np.int64)
            ds = self.h5store.file.create_carray('/', 'scenario_combinations', obj=combs)
            ds.attrs.columns = [s.name for s in self.model.scenarios.scenarios]
        elif any([s.slice for s in self.model.scenarios.scenarios]):
            description = {'name': tables.StringCol(1024), 'start': tables.Int64Col(), 'stop': tables.Int64Col(), 'step': tables.Int64Col()}
            tbl = self.h5store.file.create_table(group_name, 'scenario_slices', description=description, createparents=True)
            entry = tbl.row
            for scenario in self.model.scenarios.scenarios:
                if scenario.slice is not None:
                    entry['name'] = scenario.name.encode('utf-8')
                    start, stop, step = scenario.slice.indices(scenario.size)
                    entry['start'] = start
                    entry['stop'] = stop
                    entry['step'] = step
                    entry.append()
            tbl.flush()
    self.h5store = None


@spec("recorders._tables_recorders.TablesRecorder2", "reset", props="C16")
def f(self):
    import tables
    mode = 'r+'
    self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
    if self._buffer_num_timesteps > 1:
        scenario_shape = list(self.model.scenarios.shape)
        buffer_shape = [self._buffer_num_timesteps] + scenario_shape
    else:
        buffer_shape = None
    self._buffer_write_position = 0
    self._node_arrays = {}
    for where, node in self._nodes:
        if buffer_shape is not None:
            buffer = np.empty([3] + buffer_shape, dtype=np.float64)
        else:
            buffer = None
        self._node_arrays[node] = (self.h5store.file.get_node(where), buffer)
    self._storage_node_arrays = {}
    for where, node in self._storage_nodes:
        if buffer_shape is not None:
            buffer = np.empty([3] + buffer_shape, dtype=np.float64)
        else:
            buffer = None
        self._storage_node_arrays[node] = (self.h5store.file.get_node(where), buffer)
    self._index_parameter_arrays = {}
    for where, node in self._index_parameters:
        if buffer_shape is not None:
            buffer = np.empty([1] + buffer_shape, dtype=np.int32)
        else:
            buffer = None
        self._index_parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
    self._parameter_arrays = {}
    for where, node in self._parameters:
        if buffer_shape is not None:
            buffer = np.empty([1] + buffer_shape, dtype=np.float64)
        else:
            buffer = None
        self._parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
    self._time_table = None
    if self.time is not None:
        group_name, node_name = self.time.rsplit('/', 1)
        if group_name == '':
            group_name = '/'
        description = {c: tables.Int64Col() for c in ('year', 'month', 'day', 'index')}
        try:
            try:
                self.h5store.file.remove_node(group_name, node_name)
            except tables.NoSuchNodeError:
                pass
        finally:
            self._time_table = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
    self._routes_flow_array = None
    if self.routes_flows is not None:
        scenario_shape = list(self.model.scenarios.shape)
        shape = [len(self.model.timestepper), len(self.model.solver.routes)] + scenario_shape
        atom = tables.Float64Atom()
        try:
            try:
                self.h5store.file.remove_node(self.where, self.routes_flows)
            except tables.NoSuchNodeError:
                pass
        finally:
            self._routes_flow_array = self.h5store.file.create_carray(self.where, self.routes_flows, atom, shape, createparents=True)
        if self.routes is not None:
            group_name, node_name = self.routes.rsplit('/', 1)
            if group_name == '':
                group_name = '/'
            description = {'start': tables.StringCol(1024), 'end': tables.StringCol(1024)}
            try:
                try:
                    self.h5store.file.remove_node(group_name, node_name)
                except tables.NoSuchNodeError:
                    pass
            finally:
                tbl = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
            entry = tbl.row
            for route in self.model.solver.routes:
                node_first = route[0]
                node_last = route[-1]
                if node_first.parent is not None:
                    node_first = node_first.parent
                if node_last.parent is not None:
                    node_last = node_last.parent
                entry['start'] = node_first.name.encode('utf-8')
                entry['end'] = node_last.name.encode('utf-8')
                entry.append()
            tbl.flush()


@spec("recorders._tables_recorders.TablesRecorder2", "after", props="C16")
def f(self):
    node: AbstractNode
    storage_node: AbstractStorage
    parameter: Parameter
    index_parameter: IndexParameter
    out = np.empty(len(self.model.scenarios.combinations))
    scenario_shape = list(self.model.scenarios.shape)
    ts = self.model.timestepper.current
    idx = ts.index
    if self._time_table is not None:
        entry = self._time_table.row
        entry['year'] = ts.year
        entry['month'] = ts.month
        entry['day'] = ts.day
        entry['index'] = idx
        entry.append()
    buffer_idx = idx % self._buffer_num_timesteps
    for node, (arrays, buffer) in self._node_arrays.items():
        if buffer is None:
            node.get_all_max_flow(out)
            arrays.max_flow[idx, :] = np.reshape(out, scenario_shape)
            node.get_all_min_flow(out)
            arrays.min_flow[idx, :] = np.reshape(out, scenario_shape)
            arrays.flow[idx, :] = np.reshape(node._flow, scenario_shape)
        else:
            node.get_all_max_flow(out)
            buffer[0, buffer_idx, ...] = np.reshape(out, scenario_shape)
            node.get_all_min_flow(out)
            buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
            buffer[2, buffer_idx, ...] = np.reshape(node._flow, scenario_shape)
    for storage_node, (arrays, buffer) in self._storage_node_arrays.items():
        if buffer is None:
            storage_node.get_all_max_volume(out)
            arrays.max_volume[idx, :] = np.reshape(out, scenario_shape)
            storage_node.get_all_min_volume(out)
            arrays.min_volume[idx, :] = np.reshape(out, scenario_shape)
            arrays.volume[idx, :] = np.reshape(storage_node._volume, scenario_shape)
        else:
            storage_node.get_all_max_volume(out)
            buffer[0, buffer_idx, ...] = np.reshape(out, scenario_shape)
            storage_node.get_all_min_volume(out)
            buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
            buffer[2, buffer_idx, ...] = np.reshape(storage_node._volume, scenario_shape)
    for parameter, (arrays, buffer) in self._parameter_arrays.items():
        if buffer is None:
            v = parameter.get_all_values()
            arrays.parameter[idx, :] = np.reshape(v, scenario_shape)
        else:
            buffer[0, buffer_idx, ...] = np.reshape(parameter.get_all_values(), scenario_shape)
    for index_parameter, (arrays, buffer) in self._index_parameter_arrays.items():
        if buffer is None:
            i = index_parameter.get_all_indices()
            arrays.parameter_index[idx, :] = np.reshape(i, scenario_shape)
        else:
            buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
    self._buffer_write_position = idx + 1
    if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
        self.flush_buffer(idx, self._buffer_num_timesteps)
    if self._routes_flow_array is not None:
        routes_shape = [len(self.model.solver.routes)] + scenario_shape
        self._routes_flow_array[idx, ...] = np.reshape(self.model.solver.routes_flows_array.T, routes_shape)


@spec("recorders._tables_recorders.TablesRecorder2", "flush_buffer", props="C16")
def f(self, idx, num_timesteps):
    idx_start = idx + 1 - num_timesteps
    for _, (arrays, buffer) in self._node_arrays.items():
        arrays.max_flow[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
        arrays.min_flow[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
        arrays.flow[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
    for _, (arrays, buffer) in self._storage_node_arrays.items():
        arrays.max_volume[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
        arrays.min_volume[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
        arrays.volume[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
    for _, (arrays, buffer) in self._parameter_arrays.items():
        arrays.parameter[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
    for _, (arrays, buffer) in self._index_parameter_arrays.items():
        arrays.parameter_index[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
    if self._time_table is not None:
        self._time_table.flush()


@spec("recorders._tables_recorders.TablesRecorder2", "finish", props="C16")
def f(self):
    if self._buffer_num_timesteps > 1:
        idx = self._buffer_write_position
        residual_timesteps = idx % self._buffer_num_timesteps
        if residual_timesteps > 0:
            self.flush_buffer(idx - 1, residual_timesteps)
    if self._time_table is not None:
        self._time_table.flush()
    self.h5store = None
    self._node_arrays = {}
    self._storage_node_arrays = {}
    self._parameter_arrays = {}
    self._index_parameter_arrays = {}
    self._routes_flow_array = None


@spec("recorders._tables_recorders.TablesRecorder2", "generate_dataframes", props="C16")
def f(h5file, time='/time', scenarios='/scenarios'):
    store = H5Store(h5file, mode='r')
    if time:
        time_table = store.file.get_node(time)
        index = pandas.to_datetime({k: time_table.col(k) for k in ('year', 'month', 'day')})
    else:
        index = None
    if scenarios:
        scenarios_table = store.file.get_node(scenarios)
        scenarios = pandas.DataFrame({k: scenarios_table.col(k) for k in ('name', 'size')})
        columns = pandas.MultiIndex.from_product([range(row['size']) for _, row in scenarios.iterrows()], names=[row['name'].decode() for _, row in scenarios.iterrows()])
    else:
        columns = None
    for node in store.file.walk_nodes('/', 'CArray'):
        if node.name in ('scenario_combinations', 'scenario_ensemble_names'):
            continue
        data = node.read()
        data = data.reshape((data.shape[0], -1))
        df = pandas.DataFrame(data, index=index, columns=columns)
        yield (f'{node._v_parent._v_name}.{node._v_name}', df)


@spec("recorders.recorders.AssertionRecorder", "setup", props="C15")
def f(self):
    super(AssertionRecorder, self).setup()
    self.count = 0


@spec("recorders.recorders.AssertionRecorder", "after", props="C15")
def f(self):
    timestep = self.model.timestep
    self.count += 1
    for scenario_index in self.model.scenarios.combinations:
        if self.expected_func:
            expected_value = self.expected_func(timestep, scenario_index)
        elif self.expected_data is not None:
            expected_value = self.expected_data[timestep.index, scenario_index.global_id]
        if self.get_index:
            value = self._parameter.get_index(scenario_index)
        else:
            value = self._parameter.get_value(scenario_index)
        try:
            np.testing.assert_allclose(value, expected_value)
        except AssertionError:
            raise AssertionError('Expected {}, got {} from "{}" [timestep={}, scenario={}]'.format(expected_value, value, self._parameter.name, timestep.index, scenario_index.global_id))


@spec("recorders.recorders.AssertionRecorder", "finish", props="C15")
def f(self):
    super(AssertionRecorder, self).finish()
    if sys.exc_info()[0] is not None:
        pass
    elif self.count == 0:
        raise RuntimeError('AssertionRecorder was never called!')


@spec("recorders.recorders.CSVRecorder", "setup", props="C16")
def f(self):
    if self.nodes is None:
        self._node_names = sorted(self.model.nodes.keys())
    else:
        node_names = []
        for node_ in self.nodes:
            if isinstance(node_, str):
                node_names.append(node_)
            else:
                node_names.append(node_.name)
        self._node_names = node_names


@spec("recorders.recorders.CSVRecorder", "reset", props="C16")
def f(self):
    import csv
    kwargs = {'newline': '', 'encoding': 'utf-8'}
    mode = 'wt'
    if self.complib == 'gzip':
        import gzip
        self._fh = gzip.open(self.csvfile, mode, self.complevel, **kwargs)
    elif self.complib in ('bz2', 'bzip2'):
        import bz2
        self._fh = bz2.open(self.csvfile, mode, self.complevel, **kwargs)
    else:
        if not self.complib is None:
            raise KeyError('Unexpected compression library: {}'.format(self.complib))
        self._fh = open(self.csvfile, mode, **kwargs)
    self._writer = csv.writer(self._fh, **self.csv_kwargs)
    row = ['Datetime'] + [name for name in self._node_names]
    self._writer.writerow(row)


@spec("recorders.recorders.CSVRecorder", "after", props="C16")
def f(self):
    values = [self.model.timestepper.current.datetime.isoformat()]
    for node_name in self._node_names:
        node = self.model.nodes[node_name]
        if isinstance(node, AbstractStorage):
            values.append(node.volume[self.scenario_index])
        else:
            if not isinstance(node, AbstractNode):
                raise ValueError("Unrecognised Node type '{}' for CSV writer".format(type(node)))
            values.append(node.flow[self.scenario_index])
    self._writer.writerow(values)


@spec("recorders.recorders.CSVRecorder", "finish", props="C16")
def f(self):
    if self._fh:
        self._fh.close()


@spec("recorders.recorders.TablesRecorder", "_node_attribute", props="C16")
def f(node):
    from pywr.parameters import Parameter, IndexParameter
    if isinstance(node, AbstractStorage):
        return 'volume'
    if isinstance(node, AbstractNode):
        return 'flow'
    if isinstance(node, IndexParameter):
        return 'parameter-index'
    if isinstance(node, Parameter):
        return 'parameter'
    raise ValueError("Unrecognised Node type '{}' for TablesRecorder".format(type(node)))


@spec("recorders.recorders.TablesRecorder", "setup", props="C16")
def f(self):
    from pywr.parameters import IndexParameter
    import tables
    scenario_shape = list(self.model.scenarios.shape)
    shape = [len(self.model.timestepper)] + scenario_shape
    self.h5store = H5Store(self.h5file, self.filter_kwds, self.mode, title=self.title, metadata={'PYWR_FORMAT': 1, 'PYWR_VERSION': 1, **self.metadata}, create_directories=self.create_directories)
    self._arrays = {}
    if self.nodes is None:
        nodes = [((self.where + '/' + n.name).replace('//', '/'), n) for n in self.model.nodes.values()]
    else:
        nodes = []
        for n in self.nodes:
            if isinstance(n, (tuple, list)):
                where, node = n
            else:
                node = n
                where = self.where + '/' + (node if isinstance(node, str) else node.name)
            if isinstance(node, str):
                node = self.model.nodes[node]
            where = where.replace('//', '/')
            nodes.append((where, node))
    if self.parameters is not None:
        nodes.extend(self.parameters)
    self._nodes = nodes
    for where, node in self._nodes:
        if isinstance(node, IndexParameter):
            atom = tables.Int32Atom()
        else:
            atom = tables.Float64Atom()
        group_name, node_name = where.rsplit('/', 1)
        if group_name == '':
            group_name = '/'
        carray = self.h5store.file.create_carray(group_name, node_name, atom, shape, createparents=True)
        if self.use_legacy_attribute_naming:
            carray._v_attrs['pywr-attribute'] = self._node_attribute(node)
            carray._v_attrs['pywr-type'] = node.__class__.__name__
        else:
            carray._v_attrs['PYWR_ATTRIBUTE'] = self._node_attribute(node)
            carray._v_attrs['PYWR_TYPE'] = node.__class__.__name__
    if self.scenarios is not None:
        group_name, node_name = self.scenarios.rsplit('/', 1)
        if group_name == '':
            group_name = '/'
        description = {'name': tables.StringCol(1024), 'size': tables.Int64Col()}
        tbl = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
        entry = tbl.row
        for scenario in self.model.scenarios.scenarios:
            entry['name'] = scenario.name.encode('utf-8')
            entry['size'] = scenario.size
            entry.append()
        tbl.flush()
        if self.model.scenarios.user_combinations is not None:
            description = {s.name: tables.Int64Col() for s in self.model.scenarios.scenarios}
            tbl = self.h5store.file.create_table(group_name, 'scenario_combinations', description=description, createparents=True)
            entry = tbl.row
            for comb in self.model.scenarios.user_combinations:
                for s, i in zip(self.model.scenarios.scenarios, comb):
                    entry[s.name] = i
                entry.append()
            tbl.flush()
        elif any([s.slice for s in self.model.scenarios.scenarios]):
            description = {'name': tables.StringCol(1024), 'start': tables.Int64Col(), 'stop': tables.Int64Col(), 'step': tables.Int64Col()}
            tbl = self.h5store.file.create_table(group_name, 'scenario_slices', description=description, createparents=True)
            entry = tbl.row
            for scenario in self.model.scenarios.scenarios:
                if scenario.slice is not None:
                    entry['name'] = scenario.name.encode('utf-8')
                    start, stop, step = scenario.slice.indices(scenario.size)
                    entry['start'] = start
                    entry['stop'] = stop
                    entry['step'] = step
                    entry.append()
            tbl.flush()
    self.h5store = None


@spec("recorders.recorders.TablesRecorder", "reset", props="C16")
def f(self):
    import tables
    mode = 'r+'
    self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
    self._arrays = {}
    for where, node in self._nodes:
        self._arrays[node] = self.h5store.file.get_node(where)
    self._time_table = None
    if self.time is not None:
        group_name, node_name = self.time.rsplit('/', 1)
        if group_name == '':
            group_name = '/'
        description = {c: tables.Int64Col() for c in ('year', 'month', 'day', 'index')}
        try:
            self.h5store.file.remove_node(group_name, node_name)
        except tables.NoSuchNodeError:
            pass
        finally:
            self._time_table = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
    self._routes_flow_array = None
    if self.routes_flows is not None:
        scenario_shape = list(self.model.scenarios.shape)
        shape = [len(self.model.timestepper), len(self.model.solver.routes)] + scenario_shape
        atom = tables.Float64Atom()
        try:
            self.h5store.file.remove_node(self.where, self.routes_flows)
        except tables.NoSuchNodeError:
            pass
        finally:
            self._routes_flow_array = self.h5store.file.create_carray(self.where, self.routes_flows, atom, shape, createparents=True)
        if self.routes is not None:
            group_name, node_name = self.routes.rsplit('/', 1)
            if group_name == '':
                group_name = '/'
            description = {'start': tables.StringCol(1024), 'end': tables.StringCol(1024)}
            try:
                self.h5store.file.remove_node(group_name, node_name)
            except tables.NoSuchNodeError:
                pass
            finally:
                tbl = self.h5store.file.create_table(group_name, node_name, description=description, createparents=True)
            entry = tbl.row
            for route in self.model.solver.routes:
                node_first = route[0]
                node_last = route[-1]
                if node_first.parent is not None:
                    node_first = node_first.parent
                if node_last.parent is not None:
                    node_last = node_last.parent
                entry['start'] = node_first.name.encode('utf-8')
                entry['end'] = node_last.name.encode('utf-8')
                entry.append()
            tbl.flush()


@spec("recorders.recorders.TablesRecorder", "after", props="C16")
def f(self):
    from pywr._core import AbstractNode, AbstractStorage
    from pywr.parameters import Parameter, IndexParameter
    scenario_shape = list(self.model.scenarios.shape)
    ts = self.model.timestepper.current
    idx = ts.index
    if self._time_table is not None:
        entry = self._time_table.row
        entry['year'] = ts.year
        entry['month'] = ts.month
        entry['day'] = ts.day
        entry['index'] = idx
        entry.append()
    for node, ca in self._arrays.items():
        if isinstance(node, AbstractStorage):
            ca[idx, :] = np.reshape(node.volume, scenario_shape)
        elif isinstance(node, AbstractNode):
            ca[idx, :] = np.reshape(node.flow, scenario_shape)
        elif isinstance(node, IndexParameter):
            a = node.get_all_indices()
            ca[idx, :] = np.reshape(a, scenario_shape)
        else:
            if not isinstance(node, Parameter):
                raise ValueError("Unrecognised Node type '{}' for TablesRecorder".format(type(node)))
            a = node.get_all_values()
            ca[idx, :] = np.reshape(a, scenario_shape)
    if self._routes_flow_array is not None:
        routes_shape = [len(self.model.solver.routes)] + scenario_shape
        self._routes_flow_array[idx, ...] = np.reshape(self.model.solver.routes_flows_array.T, routes_shape)


@spec("recorders.recorders.TablesRecorder", "finish", props="C16")
def f(self):
    if self._time_table is not None:
        self._time_table.flush()
    self.h5store = None
    self._arrays = {}
    self._routes_flow_array = None


@spec("recorders.recorders.TablesRecorder", "generate_dataframes", props="C16")
def f(h5file, time='/time', scenarios='/scenarios'):
    store = H5Store(h5file, mode='r')
    if time:
        time_table = store.file.get_node(time)
        index = pandas.to_datetime({k: time_table.col(k) for k in ('year', 'month', 'day')})
    else:
        index = None
    if scenarios:
        scenarios_table = store.file.get_node(scenarios)
        scenarios = pandas.DataFrame({k: scenarios_table.col(k) for k in ('name', 'size')})
        columns = pandas.MultiIndex.from_product([range(row['size']) for _, row in scenarios.iterrows()], names=[row['name'].decode() for _, row in scenarios.iterrows()])
    else:
        columns = None
    for node in store.file.walk_nodes('/', 'CArray'):
        data = node.read()
        data = data.reshape((data.shape[0], -1))
        df = pandas.DataFrame(data, index=index, columns=columns)
        yield (node._v_name, df)
