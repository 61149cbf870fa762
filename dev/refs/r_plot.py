P='maMDP/plotting.py'; G='maMDP/grid_utils.py'
REFS=[
dict(id='plot1', file=P, funcs={
'normalise': '''
def normalise(x):
    shifted = x - np.nanmin(x)
    return shifted / np.nanmax(shifted)


def _hide_ticks(ax, n_x, n_y):
    ax.set_xticks(np.arange(-0.5, n_x, 1))
    ax.set_yticks(np.arange(-0.5, n_y, 1))
    for axis in (ax.xaxis, ax.yaxis):
        for tic in axis.get_major_ticks():
            tic.tick1line.set_visible(False)
            tic.tick2line.set_visible(False)
    ax.set_xticklabels([])
    ax.set_yticklabels([])


def _single_colour(colours, grid):
    colour = mpl.cm.tab10(grid) if colours is None else colours[grid]
    return colors.LinearSegmentedColormap.from_list("singleColour", [colour, colour], N=2)
''',
'plot_grids': '''
def plot_grids(
    grids: np.ndarray,
    colours: List[str] = None,
    alphas: List[float] = None,
    ax: plt.axes = None,
    *args,
    **kwargs
) -> plt.axes:
    if grids.ndim != 3:
        raise AttributeError(
            "Grids must be supplied as a 3D numpy array, (n_grids, Xdim, Ydim)"
        )
    if ax is None:
        ax = plt.subplots(*args, **kwargs)[1]
    for n, grid in enumerate(grids):
        intensity = grid.T
        colour_array = _single_colour(colours, n)(colors.Normalize(0, 1, clip=True)(intensity))
        colour_array[..., -1] = intensity
        ax.imshow(colour_array, alpha=0.5 if alphas is None else alphas[n])
    ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
    _hide_ticks(ax, grids.shape[1], grids.shape[2])
    return ax
''',
'plot_grid_values': '''
def plot_grid_values(
    grid: np.ndarray, cmap: str = "viridis", ax: plt.axes = None, *args, **kwargs
) -> plt.axes:
    if ax is None:
        fig, ax = plt.subplots(*args, **kwargs)
    n_x, n_y = grid.shape
    ax.imshow(np.transpose(grid), cmap=cmap)
    ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
    _hide_ticks(ax, n_x, n_y)
    return ax
''',
'plot_trajectory': '''
def plot_trajectory(
    ax,
    trajectory: List[Tuple],
    colour: str = "black",
    head_width=0.3,
    head_length=0.3,
    *args,
    **kwargs
):
    for (x1, y1), (x2, y2) in zip(trajectory[:-1], trajectory[1:]):
        ax.arrow(x1, y1, x2 - x1, y2 - y1, color=colour, head_width=head_width, head_length=head_length, *args, **kwargs)
    return ax
''',
'plot_sequence': '''
def plot_sequence(
    ax, trajectory: List[Tuple], colour: str = "black", size: int = 10, *args, **kwargs
):
    for number, (x, y) in enumerate(trajectory, start=1):
        ax.text(x - 0.25, y - 0.25, str(number), color=colour, size=size, *args, **kwargs)
    return ax
''',
'plot_agent': '''
def plot_agent(ax: plt.axes, position: Tuple, marker: str = "X", *args, **kwargs):
    x, y = position
    ax.scatter(x, y, marker=marker, *args, **kwargs)
''',
'plot_hex_grids': '''
def plot_hex_grids(
    grids: np.ndarray,
    colours: List[str] = None,
    alphas: List[float] = None,
    ax: plt.axes = None,
    *args,
    **kwargs
):
    if grids.ndim != 3:
        raise AttributeError(
            "Grids must be supplied as a 3D numpy array, (n_grids, Xdim, Ydim)"
        )
    n_grids, n_x, n_y = grids.shape
    if ax is None:
        _, ax = plt.subplots(*args, **kwargs)
    for n in range(n_grids):
        scaled = colors.Normalize(0, 1, clip=True)(grids[n])
        colour_array = _single_colour(colours, n)(scaled)
        alpha = 0.5 if alphas is None else alphas[n]
        colour_array[..., -1] = scaled * alpha
        draw_hexagons(colour_array, linewidth=0, ax=ax)
    coords = draw_hexagons(np.ones((n_x, n_y)), ax=ax, facecolor=(0, 0, 0, 0), return_coords=True)
    _hide_ticks(ax, n_x, n_y)
    return ax, coords
''',
'draw_hexagons': '''
def draw_hexagons(
    X,
    outer_radius=1,
    edgecolor="#787878",
    ax=None,
    alpha=None,
    facecolor=None,
    return_coords=False,
    labels=False,
    hide_idx: List[Tuple[int]] = None,
    **kwargs
):
    n_cols, n_rows = X.shape[:2]
    hidden = [] if hide_idx is None else hide_idx
    inner_radius = 0.86602540 * outer_radius
    xs, ys = [], []
    if ax is None:
        _, ax = plt.subplots(1, figsize=(n_cols, n_rows * 0.33), dpi=200)
    ax.set_aspect("equal")
    coords = np.zeros((2, n_cols, n_rows))
    for col in range(n_cols):
        x = col * outer_radius * 1.5
        for row in range(n_rows):
            if (col, row) in hidden:
                continue
            y = row * (inner_radius * 2)
            if col % 2 == 0:
                y = y + inner_radius
            xs.append(x)
            ys.append(y)
            ax.add_patch(RegularPolygon(
                (x, y),
                numVertices=6,
                radius=outer_radius,
                orientation=np.radians(30),
                alpha=alpha,
                facecolor=X[col, row] if facecolor is None else facecolor,
                edgecolor=edgecolor,
                **kwargs
            ))
            if labels:
                ax.text(x - inner_radius / 2, y, f"{col}, {row}", fontsize=5)
            coords[:, col, row] = x, y
    ax.set_xlim(-outer_radius, max(xs) + outer_radius)
    ax.set_ylim(-outer_radius, max(ys) + outer_radius)
    ax.axis("off")
    return coords if return_coords else None
'''}),
dict(id='grid3', file=G, funcs={
'cube_distance': '''
def cube_distance(a:np.ndarray, b:np.ndarray) -> int:
    assert len(a) == 3 & len(b) == 3, 'Length of both coordinates must be 3 (x, y, z)'
    return np.abs(a - b).sum() / 2
''',
'offset_to_cube': '''
def offset_to_cube(col:int, row:int) -> np.ndarray:
    x = int(col)
    z = int(row) - (x + x % 2) / 2
    return np.array([x, -x - z, z])
''',
'hex_dist': '''
def hex_dist(XA:list, XB:list) -> np.ndarray:
    n_a, n_b = len(XA), len(XB)
    dist = np.zeros((n_a, n_b))
    for m in range(n_a):
        for n in range(n_b):
            dist[m, n] = offset_distance(XA[m][0], XA[m][1], XB[n][0], XB[n][1])
    return dist
''',
'grid_coords': '''
def grid_coords(state_grid:np.ndarray) -> Union[list, np.ndarray]:
    if not isinstance(state_grid, np.ndarray):
        raise TypeError("Grid must be a numpy array")
    if not state_grid.ndim == 2:
        raise AttributeError("Grid must be 2 dimensional")
    grid_idx = np.argwhere(~np.isnan(state_grid))
    return [*range(len(grid_idx))], grid_idx
''',
'get_action_from_states_hex': '''
def get_action_from_states_hex(A:int, B:int, T:np.ndarray, coords:np.ndarray) -> int:
    if not T[A, B]:
        raise ValueError("A and B are not adjacent")
    dx, dy = coords[B, :] - coords[A, :]
    if dx == 0:
        return 0 if dy > 0 else 3
    up = dy == 0 if coords[A, 0] % 2 else dy > 0
    if dx > 0:
        return 1 if up else 2
    return 5 if up else 4
''',
'get_action_from_states_square': '''
def get_action_from_states_square(A:int, B:int, T:np.ndarray, coords:np.ndarray) -> int:
    if T[A, B] == 0:
        raise ValueError("A and B are not adjacent")
    moves = {(0, 1): 0, (1, 0): 1, (0, -1): 2, (-1, 0): 3}
    dx, dy = coords[B] - coords[A]
    return moves[(int(dx), int(dy))]
''',
'square_adjacency': '''
def square_adjacency(grid_coords:np.ndarray) -> np.ndarray:
    difference = grid_coords[:, np.newaxis, :] - grid_coords[np.newaxis, :, :]
    return (np.abs(difference).sum(axis=-1) == 1).astype(int)
'''}),
]
