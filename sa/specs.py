"""Declared kinds, sizes, units and frames of the public API (taken from the docstrings).

S(function, parameters, results, ...)  one *configuration* of a public function.

Type letters
  p(s) points: units of length, move with the frame     v(s) vectors/lengths: units of length
  x(s) dimensionless floats          a(s) floats, units not stated (not checked)
  i(s) integer array                 k    integer scalar (size atom)   c(s) complex/other array
  f    float scalar                  b    option flag                  e{a|b|..} option string (default first)
  fn   callable                      rng  numpy Generator              sp(s) sparse matrix
  str  string                        L[t] python list of t             o    opaque object
  N    None                          =v   the literal v
`^k` sets the homogeneity degree, `~P` says that the value moves with the frame.
A leading `?` marks an optional argument (default None): absent in the base
configuration, present in the variants.
"""

CONFIGS = []
DRIVERS = {}


def S(name, params='', ret=None, cfg='', batch=None, rows=(), scale=True, trans=True, notes=''):
    CONFIGS.append(dict(name=name, params=params, ret=ret, cfg=cfg, batch=batch, rows=tuple(rows),
                        scale=scale, trans=trans, notes=notes, driver=None))


def D(name, params, body, ret=None, cfg='', batch=None, rows=(), scale=True, trans=True):
    """A short client program (parsed, never executed) exercising a class of the package."""
    CONFIGS.append(dict(name=name, params=params, ret=ret, cfg=cfg, batch=batch, rows=tuple(rows),
                        scale=scale, trans=trans, notes='', driver=body))


TRI = 'V=p(n,3) F=i(m,3)'
LSQ = 'l_sq=a(m,3)^2 F=i(m,3) n=k:n'

# ------------------------------------------------------------------ topology
S('adjacency_matrix', 'F=i(m,3)', 'sp(?,?)', 'tri')
S('adjacency_matrix', 'F=i(m,2)', 'sp(?,?)', 'edge')
S('boundary_edges', 'F=i(m,3)', 'i(?,2)')
S('boundary_faces', 'T=i(m,4)', 'i(?,3)')
S('boundary_loops', 'f=i(m,3) allow_wrong_orientations=b', 'L[i(?)]')
S('boundary_vertices', 'F=i(m,3)', 'i(?)')
S('connected_components', 'F=i(m,3) return_face_indices=b', 'i(?)')
S('connected_components', 'F=i(m,3) return_face_indices==True', 'i(?) i(m)', 'faces')
S('edges', 'F=i(m,3) return_boundary_indices=b return_interior_indices=b return_nonmanifold_indices=b', 'i(?,2)')
S('edges', 'F=i(m,3) return_boundary_indices==True return_interior_indices==True return_nonmanifold_indices==True',
  'i(?,2) i(?) i(?) i(?)', 'all')
S('faces', 'T=i(m,4) return_boundary_indices=b return_interior_indices=b return_nonmanifold_indices=b', 'i(?,3)')
S('faces', 'T=i(m,4) return_boundary_indices==True return_interior_indices==True return_nonmanifold_indices==True',
  'i(?,3) i(?) i(?) i(?)', 'all')
S('halfedge_edge_map', 'F=i(m,3) assume_manifold=b', 'i(m,3,2) i(?,2) i(m,3) i(?,2,2)')
S('halfedges', 'F=i(m,3)', 'i(m,3,2)', batch='F', rows=(0,))
S('halffaces', 'T=i(m,4)', 'i(m,4,3)', batch='T', rows=(0,))
S('non_manifold_edges', 'F=i(m,3)', 'i(?,2)')
S('triangle_triangle_adjacency', 'F=i(m,3)', 'i(m,3) i(m,3)')
S('cut_edges', 'F=i(m,3) E=i(q,2)', 'i(m,3) i(?)')
S('edge_indices', 'n=k:n closed=b', 'i(n-1,2)')
S('edge_indices', 'n=k:n closed==True', 'i(n,2)', 'closed')
S('array_correspondence', 'A=i(q) B=i(r)', 'i(q)')
S('array_correspondence', 'A=i(q,c) B=i(r,c) axis==0', 'i(q)', 'axis')
S('remove_unreferenced', 'V=p(n,d) F=i(m,3) return_maps=b', 'p(?,d) i(m,3)')
S('remove_unreferenced', 'V=p(n,d) F=i(m,3) return_maps==True', 'p(?,d) i(m,3) i(?) i(?)', 'maps')
S('remove_unreferenced', 'V==None F=i(m,3) return_maps=b', 'N i(m,3)', 'noV')
S('remove_duplicate_vertices', 'V=p(n,d) epsilon==0.0', 'p(?,d) i(?) i(n)')
S('remove_duplicate_vertices', 'V=p(n,d) epsilon=f^1 faces=i(m,3)', 'p(?,d) i(?) i(n) i(m,3)', 'faces')

# ------------------------------------------------------------------ elementary geometry
S('angle_defect', TRI + ' use_small_angle_approx=b', 'x(n)')
S('angle_defect_intrinsic', LSQ + ' use_small_angle_approx=b', 'x(n)')
S('angle_defect_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3)', 'x(?)', 'inferN')
S('barycenters', TRI, 'p(m,3)', batch='F', rows=(0,))
S('barycentric_coordinates', 'p=p(q,3) v1=p(q,3) v2=p(q,3) v3=p(q,3)', 'x(q,3)', '3d', batch='p,v1,v2,v3', rows=(0,))
S('barycentric_coordinates', 'p=p(q,2) v1=p(q,2) v2=p(q,2) v3=p(q,2)', 'x(q,3)', '2d', batch='p,v1,v2,v3', rows=(0,))
S('barycentric_coordinates', 'p=p(3) v1=p(3) v2=p(3) v3=p(3)', 'x(1,3)', 'one')
S('dihedral_angles', TRI, 'x(m,3)')
S('doublearea', TRI, 'a(m)^2~0', '3d', batch='F', rows=(0,))
S('doublearea', 'V=p(n,2) F=i(m,3) signed=b', 'a(m)^2~0', '2d', batch='F', rows=(0,))
S('doublearea', 'V=p(n,2) F=i(m,3) signed==True', 'a(m)^2~0', '2dsigned', batch='F', rows=(0,))
S('doublearea', 'V=p(n,2) F=i(m,2)', 'v(m)', 'line', batch='F', rows=(0,))
S('doublearea', 'V=p(n,2)', 'v(n-1)', 'noF')
S('doublearea_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3)', 'a(m)^2~0', batch='l_sq', rows=(0,))
S('halfedge_lengths', TRI, 'v(m,3)', batch='F', rows=(0,))
S('halfedge_lengths_squared', TRI, 'a(m,3)^2~0', batch='F', rows=(0,))
S('per_face_normals', TRI + ' unit_norm=b', 'x(m,3)', '3d', batch='F', rows=(0,))
S('per_face_normals', TRI + ' unit_norm==False', 'a(m,3)^2~0', '3draw', batch='F', rows=(0,))
S('per_face_normals', 'V=p(n,2) F=i(m,2) unit_norm=b', 'x(m,2)', '2d', batch='F', rows=(0,))
S('per_face_normals', 'V=p(n,2) F=i(m,2) unit_norm==False', 'v(m,2)', '2draw', batch='F', rows=(0,))
S('per_vertex_normals', TRI, 'x(n,3)', '3d')
S('per_vertex_normals', 'V=p(n,2) F=i(m,2)', 'x(n,2)', '2d')
S('tip_angles', TRI + ' use_small_angle_approx=b', 'x(m,3)', batch='F', rows=(0,))
S('tip_angles', TRI + ' use_small_angle_approx==False', 'x(m,3)', 'acos', batch='F', rows=(0,))
S('tip_angles_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) use_small_angle_approx=b', 'x(m,3)', batch='l_sq', rows=(0,))
S('tip_angles_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) use_small_angle_approx==False', 'x(m,3)', 'acos', batch='l_sq', rows=(0,))
S('volume', 'V=p(n,3) T=i(m,4)', 'a(m)^3~0', batch='T', rows=(0,))
S('normalize_points', 'v=p(n,d) center=?p(d)', 'a(n,d)')
S('rotation_matrix_from_vectors', 'vec1=v(3) vec2=v(3)', 'x(3,3)', '3d')
S('rotation_matrix_from_vectors', 'vec1=v(2) vec2=v(2)', 'x(2,2)', '2d')
S('linear_blend_skinning', 'V=v(n,3) Ws=x(n,h) Rs=x(h,3,3) Ts=v(h,3)', 'v(n,3)', batch='V,Ws', rows=(0,))
S('catmull_rom_spline', 'T=x(t) P=p(q,3)', 'p(t,3)', batch='T', rows=(0,))

# ------------------------------------------------------------------ differential operators
S('cotangent_weights', TRI, 'x(m,3)', batch='F', rows=(0,))
S('cotangent_weights_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3)', 'x(m,3)', batch='l_sq', rows=(0,))
S('cotangent_laplacian', TRI, 'sp(n,n)^0~0')
S('cotangent_laplacian_intrinsic', LSQ, 'sp(n,n)^0~0')
S('cotangent_laplacian_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3)', 'sp(?,?)^0~0', 'inferN')
S('biharmonic_energy', TRI + ' bc==mixedfem_zero_neumann', 'sp(n,n)^-2~0', 'mixed')
S('biharmonic_energy', TRI + ' bc==hessian', 'sp(n,n)^-2~0', 'hessian')
S('biharmonic_energy', TRI + ' bc=e{mixedfem_zero_neumann|hessian|curved_hessian}', 'sp(n,n)^-2~0', 'open')
S('biharmonic_energy_intrinsic', LSQ, 'sp(n,n)^-2~0', 'mixed')
S('biharmonic_energy_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) n=?k:n bc=e{mixedfem_zero_neumann|curved_hessian}',
  'sp(?,?)^-2~0', 'open')
S('massmatrix', TRI, 'sp(n,n)^2~0', '3d')
S('massmatrix', TRI + ' type==full', 'sp(n,n)^2~0', 'full')
S('massmatrix', TRI + ' type==barycentric', 'sp(n,n)^2~0', 'bary')
S('massmatrix', TRI + ' type=e{voronoi|full|barycentric}', 'sp(n,n)^2~0', 'open')
S('massmatrix', 'V=p(n,2) F=i(m,2)', 'sp(n,n)^1~0', 'line')
S('massmatrix', 'V=p(n,2)', 'sp(n,n)^1~0', 'noF')
S('massmatrix_intrinsic', LSQ, 'sp(n,n)^2~0')
S('massmatrix_intrinsic', LSQ + ' type==full', 'sp(n,n)^2~0', 'full')
S('massmatrix_intrinsic', LSQ + ' type==barycentric', 'sp(n,n)^2~0', 'bary')
S('massmatrix_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) n=?k:n type=e{voronoi|full|barycentric}',
  'sp(?,?)^2~0', 'open')
S('grad', TRI, 'sp(3*m,n)^-1~0', '3d')
S('grad', 'V=p(n,2) F=i(m,3)', 'sp(2*m,n)^-1~0', '2d')
S('grad', 'V=p(n,2) F=i(m,2)', 'sp(m,n)^-1~0', 'line')
S('grad', 'V=p(n,2)', 'sp(n-1,n)^-1~0', 'noF')
S('grad_intrinsic', LSQ, 'sp(2*m,n)^-1~0')
S('dec_d0', 'F=i(m,3) E=?i(e,2) n=?k:n', 'sp(?,?)')
S('dec_d0', 'F=i(m,3) E=i(e,2) n=k:n', 'sp(e,n)', 'given')
S('dec_d1', 'F=i(m,3) E_to_he=?i(e,2,2)', 'sp(m,?)')
S('dec_d1', 'F=i(m,3) E_to_he=i(e,2,2)', 'sp(m,e)', 'given')
for _n, _deg, _sz in (('dec_h0', 2, 'n'), ('dec_h0inv', -2, 'n'), ('dec_h2', 2, 'm'), ('dec_h2inv', -2, 'm')):
    S(_n, TRI, f'sp({_sz},{_sz})^{_deg}~0')
    S(_n + '_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3)' + (' n=k:n' if 'h0' in _n else ''), f'sp({_sz},{_sz})^{_deg}~0')
for _n in ('dec_h1', 'dec_h1inv'):
    S(_n, TRI + ' E_to_he=?i(e,2,2)', 'sp(?,?)^0~0')
    S(_n, TRI + ' E_to_he=i(e,2,2)', 'sp(e,e)^0~0', 'given')
    S(_n + '_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) E_to_he=?i(e,2,2)', 'sp(?,?)^0~0')
    S(_n + '_intrinsic', 'l_sq=a(m,3)^2 F=i(m,3) E_to_he=i(e,2,2)', 'sp(e,e)^0~0', 'given')
S('linear_elasticity_stiffness', 'V=p(n,2) F=i(m,3) K=f mu=f volumes=?a(m)^2 mass=?sp(n,n)^2',
  'sp(2*n,2*n)^0~0 sp(?,?) sp(?,?)^-1~0 sp(?,?)^2~0 sp(?,?)^2~0', '2d')
S('linear_elasticity', 'V=p(n,2) F=i(m,3) U0=a(n,2) dt=f bb=?i(q) bc=?a(q,2) Ud0=?a(n,2) fext=?a(n,2) K=f mu=f'
  ' volumes=?a(m)^2 mass=?sp(n,n)^2',
  'a(n,2) a(?)', '2d')

# ------------------------------------------------------------------ grids
S('fd_partial_derivative', 'gs=iv(nx,ny) h=v(2) direction==0', 'sp(nx*ny-ny,nx*ny)^-1', '2dx')
S('fd_partial_derivative', 'gs=iv(nx,ny) h=v(2) direction==1', 'sp(nx*ny-nx,nx*ny)^-1', '2dy')
S('fd_partial_derivative', 'gs=iv(nx,ny,nz) h=v(3) direction==2', 'sp(nx*ny*nz-nx*ny,nx*ny*nz)^-1', '3dz')
S('fd_grad', 'gs=iv(nx,ny) h=v(2)', 'sp(2*nx*ny-nx-ny,nx*ny)^-1', '2d')
S('fd_grad', 'gs=iv(nx,ny,nz) h=v(3)', 'sp(3*nx*ny*nz-nx*ny-ny*nz-nx*nz,nx*ny*nz)^-1', '3d')
S('fd_interpolate', 'P=p(q,2) gs=iv(nx,ny) h=v(2) corner=p(2)', 'sp(q,nx*ny)^0~0', '2d', batch='P', rows=(0,))
S('fd_interpolate', 'P=p(q,3) gs=iv(nx,ny,nz) h=v(3) corner=?p(3)', 'sp(q,nx*ny*nz)^0~0', '3d', batch='P', rows=(0,))
S('grid_laplacian_eigenfunctions', 'num_modes=k:q gs=iv(nx,ny) l=v(2)', 'x(nx*ny,q)', '2d')
S('grid_laplacian_eigenfunctions', 'num_modes=k:q gs=iv(nx,ny,nz) l=v(3)', 'x(nx*ny*nz,q)', '3d')
S('grid_neighbors', 'gs=iv(nx,ny) order==1 include_diagonals=b include_self=b output_unique=b', 'i(?,?)', '2d')
S('grid_neighbors', 'gs=iv(nx,ny) order==2 include_diagonals=b include_self=b output_unique=b', 'i(?,nx*ny)', '2do2')
S('grid_neighbors', 'gs=iv(nx,ny,nz) order==1 include_diagonals=b include_self=b output_unique=b', 'i(?,nx*ny*nz)', '3d')
S('regular_square_mesh', 'nx=k:nx ny=k:ny', 'x(nx*ny,2) i(2*nx*ny-2*nx-2*ny+2,3)')
S('regular_square_mesh', 'nx=k:nx ny=?k:ny', 'x(nx*nx,2) i(2*nx*nx-4*nx+2,3)', 'sq')
S('regular_cube_mesh', 'nx=k:nx ny=k:ny nz=k:nz', 'x(nx*ny*nz,3) i(?,4)')
S('regular_cube_mesh', 'nx=k:nx ny=?k:ny nz=?k:nz type=e{rotationally-symmetric|five|reflectionally-symmetric|hex}',
  'x(?,3) i(?,?)', 'open')
S('regular_circle_polyline', 'n=k:n', 'x(n,2) i(n,2)')
S('cone', 'nx=k:nx nz=k:nz', 'x(?,3) i(?,3)')
S('cylinder', 'nx=k:nx nz=k:nz', 'x(nx*nz,3) i(2*nx*nz-2*nx,3)')
S('torus', 'nR=k:nR nr=k:nr R=f^1 r=f^1', 'v(nR*nr,3) i(2*nR*nr,3)')
S('icosphere', 'n=k:n', 'x(?,3) i(?,3)')
S('colormap', 'name=str n=k:n interpolate=b',
  'i(?,3)')
S('apply_colormap', 'C=i(r,3) f=x(n) min=?f max=?f log=b piecewise_linear=b',
  'x(n,3)')

# ------------------------------------------------------------------ distances and intersections
S('edge_edge_distance', 'P1=p(3) Q1=p(3) P2=p(3) Q2=p(3)', 'v() p(3) p(3)')
S('triangle_triangle_distance', 's0=p(3) s1=p(3) s2=p(3) t0=p(3) t1=p(3) t2=p(3)', 'v()')
S('squared_distance_to_element', 'point=p(3) V=p(n,3) element=i(3)', 'a()^2~0 x(3)', '3dtri')
S('squared_distance_to_element', 'point=p(2) V=p(n,2) element=i(2)', 'a()^2~0 x(2)', '2dseg')
S('squared_distance_to_element', 'point=p(d) V=p(n,d) element=i(1)',
  'a()^2~0 x(1)', 'pt')
S('squared_distance', 'P=p(q,3) V=p(n,3) F=i(m,3)', 'a(q)^2~0 i(q) x(q,3)', '3d', batch='P', rows=(0, 1, 2))
S('squared_distance', 'P=p(q,2) V=p(n,2) F=?i(m,2) use_cpp=b use_aabb=b', 'a(q)^2~0 i(q) x(q,?)', '2d')
S('squared_distance', 'P=p(q,3) V=p(n,3) F=i(m,3) use_cpp=b use_aabb=b C=?p(c,3) W=?v(c,3) CH=?i(c,2) tri_ind=?i(c)'
  ' split_dir=?i(c) cpp_aabb=?o', 'a(q)^2~0 i(q) x(q,3)', 'open')
S('squared_distance', 'P=p(q,3) V=p(n,3) F=i(m,3) use_aabb==True C=p(c,3) W=v(c,3) CH=i(c,2) tri_ind=i(c) split_dir=i(c)',
  'a(q)^2~0 i(q) x(q,3)', 'aabb', batch='P', rows=(0, 1, 2))
S('squared_distance', 'P=p(q,3) V=p(n,3) F=i(m,3) use_cpp==True', 'a(q)^2~0 i(q) x(q,3)', 'cpp')
S('unsigned_distance', 'Q=p(q,3) V=p(n,3) F=i(m,3) use_cpp==False', 'v(q) i(q) x(q,3)', 'py', batch='Q', rows=(0, 1, 2))
S('unsigned_distance', 'Q=p(q,3) V=p(n,3) F=i(m,3) use_cpp=b cpp_aabb=?o',
  'v(q) i(q) x(q,3)', 'open')
S('signed_distance', 'Q=p(q,3) V=p(n,3) F=i(m,3) use_cpp=b cpp_aabb=?o fwn_bvh=?o',
  'v(q) i(q) x(q,3)', '3d')
S('signed_distance', 'Q=p(q,2) V=p(n,2) F=?i(m,2) use_cpp=b',
  'v(q) i(q) x(q,?)', '2d')
S('signed_distance_polygon', 'P=p(q,2) V=p(n,2)', 'v(q)', batch='P', rows=(0,))
S('winding_number', 'O=p(q,3) V=p(n,3) F=i(m,3) fwn_bvh=?o',
  'x(q)', '3d')
S('winding_number', 'O=p(q,2) V=p(n,2) F=i(m,2)', 'x(q)', '2d', batch='O', rows=(0,))
S('fast_winding_number', 'Q=p(q,3) V=p(n,3) F=i(m,3) fwn_bvh=?o',
  'x(q)')
S('minimum_distance', 'v1=p(n1,3) f1=i(m1,3) v2=p(n2,3) f2=i(m2,3)', 'v()')
S('approximate_hausdorff_distance', 'v1=p(n1,3) f1=i(m1,3) v2=p(n2,3) f2=i(m2,3) use_cpp=b', 'v()', '3d')
S('ray_box_intersect', 'origin=p(3) dir=v(3) center=p(3) width=v(3)', 'x() p(3)')
S('ray_triangle_intersect', 'origin=p(3) dir=v(3) v0=p(3) v1=p(3) v2=p(3) return_negative=b', 'x() x() p(3)')
S('ray_polyline_intersect', 'position=p(2) direction=v(2) polyline_vertices=p(n,2) max_distance=f^1 EC=?i(m,2)',
  'p(2) x(2) i()',
  )
S('ray_mesh_intersect', 'cam_pos=p(q,3) cam_dir=v(q,3) V=p(n,3) F=i(m,3) use_embree=b C=?p(c,3) W=?v(c,3) CH=?i(c,2)'
  ' tri_ind=?i(c) intersector=?o',
  'x(q) i(q) x(q,3)')
S('in_element_aabb', 'queries=p(q,3) V=p(n,3) F=i(m,4)',
  'i(q)')
S('initialize_aabbtree', 'V=p(n,3) F=i(m,3) vmin=?p(3) vmax=?p(3)', 'p(?,3) v(?,3) i(?,2) i(?) i(?) i(?) i(?)')
S('initialize_aabbtree', 'V=p(n,2) F=?i(m,2)', 'p(?,2) v(?,2) i(?,2) i(?) i(?) i(?) i(?)', '2d')
S('traverse_aabbtree', 'C=p(c,3) W=v(c,3) CH=i(c,2) tri_indices=i(c) split_dim=i(c) traversal_bool_fun=fn add_to_queue=fn', None)

# ------------------------------------------------------------------ quadtrees
QT = 'C=p(c,2) W=v(c) CH=i(c,4)'
S('initialize_quadtree', 'P=p(n,2) max_depth=k min_depth=k graded=b vmin=?p(2) vmax=?p(2)', 'p(?,2) v(?) i(?,4) i(?) i(?) sp(?,?)')
S('in_quadtree', 'point=p(2) ' + QT,
  'i() i(?)')
S('quadtree_boundary', 'CH=i(c,4) A=sp(c,c)',
  'i(?) i(?)')
S('quadtree_children', 'CH=i(c,4)',
  'i(?)')
S('quadtree_gradient', QT + ' D=i(c) A=sp(c,c)', 'sp(?,?)^-1~0 p(?,2)')
S('quadtree_laplacian', QT + ' D=i(c) A=sp(c,c)', 'sp(?,?)^-2~0 p(?,2)')
S('bad_quad_mesh_from_quadtree', QT, 'p(?,2) i(?,4) i(?,?)')
S('subdivide_quad', 'ind=k C1=p(c,2) W1=v(c) CH1=i(c,4) PAR1=i(c) D1=i(c) A1=sp(c,c) graded=b',
  'p(?,2) v(?) i(?,4) i(?) i(?) sp(?,?)')

# ------------------------------------------------------------------ solvers, statistics
S('min_quad_with_fixed', 'Q=sp(n,n) c=?x(n) A=?sp(r,n) b=?x(r) k=?i(o) y=?x(o)', 'a(n)')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n) A=sp(r,n) b=x(r) k=i(o) y=x(o)', 'a(n)', 'all')
S('fixed_dof_solve', 'A=sp(n,n) b=?x(n) k=?i(o) y=?x(o)', 'a(n)')
S('fixed_dof_solve', 'A=sp(n,n) b=x(n) k=i(o) y=x(o)', 'a(n)', 'all')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n,2) A=sp(r,n) b=x(r,2) k=i(o) y=x(o,2)', 'a(n,2)', 'columns')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n,2) k=i(o) y=x(o,2)', 'a(n,2)', 'fixedcolumns')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n) k=i(o) y=x(o)', 'a(n)', 'fixed')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n) A=sp(r,n) b=x(r)', 'a(n)', 'linear')
S('min_quad_with_fixed', 'Q=sp(n,n) c=x(n)', 'a(n)', 'free')
S('fixed_dof_solve', 'A=sp(n,n) b=x(n,2) k=i(o) y=x(o,2)', 'a(n,2)', 'columns')
S('fixed_dof_solve', 'A=sp(n,n) b=x(n,2)', 'a(n,2)', 'freecolumns')
D('min_quad_with_fixed_precompute', 'Q=sp(n,n) A=?sp(r,n) k=?i(o) c=?x(n) b=?x(r) y=?x(o)',
  'pre = gpytoolbox.min_quad_with_fixed_precompute(Q, A, k)\nreturn pre.solve(c, b, y)')
D('fixed_dof_solve_precompute', 'A=sp(n,n) k=?i(o) b=?x(n) y=?x(o)',
  'pre = gpytoolbox.fixed_dof_solve_precompute(A, k)\nreturn pre.solve(b, y)')
S('min_l1_with_fixed', 'G=?sp(q,n) Q=?sp(n,n) c=x(n) k=?i(o) y=?x(o) A=?sp(r,n) b=?x(r,1) d=k verbose=b params=?o'
  ' solver=e{mosek|scs|=None}', 'a(n)')
S('min_l1_with_fixed', 'Q=sp(n,n) c=x(n) k=i(o) y=x(o) A=sp(r,n) b=x(r,1) solver==scs', 'a(n)', 'Q')
S('min_l1_with_fixed', 'L=sp(n,t) c=x(n) k=?i(o) y=?x(o) A=?sp(r,n) b=?x(r,1) solver=e{mosek|scs}', 'a(n)', 'L')
S('gaussian_process', 'X_train=p(n,d) y_train=x(n) X_test=p(q,d) kernel=?fn X_induced=?p(r,d) grad_y_train=?x(n,d)'
  ' verbose=b lump_K3=b compact_kernel=b sigma_n=f',
  'a(q) a(q,q)')
S('gaussian_process', 'X_train=p(n,d) y_train=x(n) X_test=p(q,d) kernel=?fn X_induced=p(r,d) lump_K3=b compact_kernel=b sigma_n=f',
  'a(q) a(q,q)',
  'induced')
S('gaussian_process', 'X_train=p(n,d) y_train=x(n) X_test=p(q,d) grad_y_train=x(n,d) lump_K3=b compact_kernel=b sigma_n=f',
  'a(q) a(q,q)', 'grad')
S('gaussian_process', 'X_train=p(n,d) y_train=x(n) X_test=p(q,d) kernel=?fn lump_K3=b compact_kernel=b sigma_n=f',
  'a(q) a(q,q)', 'plain')
D('gaussian_process_precompute', 'X_train=p(n,d) y_train=x(n) X_test=p(q,d) kernel=?fn X_induced=?p(r,d) grad_y_train=?x(n,d)'
  ' verbose=b lump_K3=b compact_kernel=b sigma_n=f mean_only=b',
  'pre = gpytoolbox.gaussian_process_precompute(X_train, y_train, X_induced, grad_y_train, kernel, verbose, sigma_n, lump_K3,'
  ' compact_kernel)\nreturn pre.predict(X_test, mean_only)')
S('squared_exponential_kernel', 'X1=p(q,d) X2=p(q,d) length=f^1 scale=f', 'x(q)', batch='X1,X2', rows=(0,))
S('compactly_supported_normal_kernel', 'X1=p(q,d) X2=p(q,d) length=f^1 scale=f', 'a(q)', batch='X1,X2', rows=(0,))
S('compactly_supported_normal', 'x=p(q,d) n==2 sigma=f^1 center=?p(d)', 'a(q)', batch='x', rows=(0,))
S('matrix_from_function', 'fun=fn X1=p(q,d) X2=p(r,d) sparse=b sparsity_pattern=?o', 'a(q,r)')
S('metropolis_hastings', 'unnorm_distr=fn next_sample=fn x0=x(d) num_samples=k:q rng=rng', 'a(q,d) a(q)')
S('particle_swarm', 'fun=fn lb=x(d) ub=x(d) n_particles=k:q max_iter=k momentum=f phi=f verbose=b topology=e{full|ring} use_cpp=b',
  'a(d) a()')
S('random_points_on_mesh', 'V=p(nv,3) F=i(m,3) n=k:n rng=rng color=e{white} per_element_likelihood=?x(m) return_indices=b', 'p(n,3)', '3d')
S('random_points_on_mesh', 'V=p(nv,3) F=i(m,3) n=k:n rng=rng return_indices==True', 'p(n,3) i(n) x(n,3)', 'idx')
S('random_points_on_mesh', 'V=p(nv,2) F=i(m,2) n=k:n rng=rng per_element_likelihood=?x(m) return_indices=b', 'p(n,2)', 'line')
S('matryoshka', 'V=p(n,3) F=i(m,3) VB=?p(nb,3) FB=?i(mb,3) optimize=e{all|rigid|scale_only} R=?x(3,3) c=?p(3) cut_point=?p(3)'
  ' cut_normal=?x(3) a_plus=?x(3) a_minus=?x(3) n_samples=k n_particles=k max_iter=k scale_tol=f warm_start=b verbose=b seed=?k',
  None)
S('stochastic_poisson_surface_reconstruction', 'P=p(n,2) N=x(n,2) gs=iv(nx,ny) h=v(2) corner=p(2) output_variance=b sigma_n=f sigma=f'
  ' solve_subspace_dim==0 verbose=b prior_fun=?fn', None, '2d')
S('stochastic_poisson_surface_reconstruction', 'P=p(n,2) N=x(n,2) gs=iv(nx,ny) h=v(2) corner=p(2) output_variance=b sigma_n=f sigma=f'
  ' solve_subspace_dim=k verbose=b', None, 'sub')

# ------------------------------------------------------------------ meshing, reconstruction
S('subdivide', 'V=p(n,d) F=i(m,3) method==upsample return_matrix=b', 'p(?,d) i(?,3)', 'tri')
S('subdivide', 'V=p(n,d) F=i(m,2) method==upsample return_matrix=b', 'p(n+m,d) i(2*m,2)', 'line')
S('subdivide', 'V=p(n,d) F=i(m,2) method==upsample return_matrix==True', 'p(n+m,d) i(2*m,2) sp(n+m,n)^0~0', 'linem')
S('subdivide', 'V=p(n,d) F=i(m,3) method=e{upsample|loop} iters=k return_matrix=b',
  'p(?,d) i(?,3)', 'open')
S('subdivide', 'V=p(n,d) F=i(m,2) method=e{upsample} return_matrix=b', 'p(n+m,d) i(2*m,2)', 'linemethod')
S('subdivide', 'V=p(n,d) F=i(m,3) method==loop return_matrix=b', 'p(?,d) i(?,3)', 'loop')
S('decimate', TRI + ' face_ratio=f num_faces=?k method=e{shortest_edge|qslim}',
  'p(?,3) i(?,3) i(?) i(?)')
S('remesh_botsch', TRI + ' i=k h=?f^1 project=b feature=?i(q) feature_edges=?i(r,2) detect_feature_edges=b feature_dihedral_threshold=f',
  'p(?,3) i(?,3)')
S('offset_surface', TRI + ' iso=f^1 grid_size=k',
  'p(?,3) i(?,3)')
S('marching_cubes', 'S=v(nx*ny*nz) GV=p(nx*ny*nz,3) nx=k:nx ny=k:ny nz=k:nz isovalue=f^1',
  'p(?,3) i(?,3)')
S('marching_squares', 'S=v(nx*ny) GV=p(nx*ny,2) nx=k:nx ny=k:ny',
  'p(?,2) i(?,2)')
S('dual_contouring_of_signed_distance_data', 'S=v(nx*ny*nz) GV=p(nx*ny*nz,3) nx=k:nx ny=k:ny nz=k:nz isovalue=f^1 outer_iters=k'
  ' inner_iters=k batch_size=k hermite_update=b mu=f dc_weight=f svd_threshold=f new_hermite_pos_weight=f new_face_pos_weight=f'
  ' new_hermite_normal_weight=f verbose=b',
  'p(?,3) i(?,4)')
S('point_cloud_to_mesh', 'P=p(n,3) N=x(n,3) method=e{PSR} psr_screening_weight=f psr_depth=k psr_outer_boundary_type=e{Neumann|Dirichlet}'
  ' verbose=b',
  'p(?,3) i(?,3)')
S('upper_envelope', 'V=p(n,3) T=i(m,4) D=x(n,h)',
  'p(?,3) i(?,4) i(?,?)')
for _n in ('swept_volume', 'copyleft.swept_volume'):
    S(_n, TRI + ' transformations=?L[x(4,4)] rotations=?L[x(3,3)] translations=?L[v(3)] scales=?L[f]'
      ' align_rotations_with_velocity=b eps=f num_seeds=k num_faces=?k verbose=b',
  'a(?,3) i(?,3)')
    S(_n, TRI + ' transformations=L[x(4,4)] align_rotations_with_velocity=b',
  'a(?,3) i(?,3)', 'transf')
    S(_n, TRI + ' translations=L[v(3)] align_rotations_with_velocity=b',
  'a(?,3) i(?,3)', 'transl')
S('copyleft.do_meshes_intersect', 'V1=p(n1,3) F1=i(m1,3) V2=p(n2,3) F2=i(m2,3)', None)
S('copyleft.mesh_boolean', 'V1=p(n1,3) F1=i(m1,3) V2=p(n2,3) F2=i(m2,3) boolean_type=e{union|intersection|difference}',
  'p(?,3) i(?,3)')
S('copyleft.lazy_cage', TRI + ' grid_size=k max_iter=k num_faces=k force_output=b',
  'p(?,3) i(?,3)')
S('reach_for_the_arcs', 'U=p(q,3) S=v(q) rng_seed=k return_point_cloud=b fine_tune_iters=k batch_size=k num_rasterization_spheres=k'
  ' screening_weight=f rasterization_resolution=?k max_points_per_sphere=k n_local_searches=?k local_search_iters=k local_search_t=f'
  ' tol=f clamp_value=f force_cpu=b parallel=b verbose=b',
  'p(?,3) i(?,3)', '3d')
S('reach_for_the_arcs', 'U=p(q,3) S=v(q) return_point_cloud==True parallel=b verbose=b', 'p(?,3) i(?,3) p(?,3) x(?,3)', 'cloud')
S('reach_for_the_arcs', 'U=p(q,2) S=v(q) return_point_cloud==True parallel=b verbose=b', 'p(?,2) i(?,2) p(?,2) x(?,2)', '2d')
S('reach_for_the_spheres', 'U=p(q,3) sdf=fn V=p(n,3) F=i(m,3) S=?v(q) return_U=b verbose=b max_iter=?k tol=?f h=?f^1 min_h=?f^1'
  ' linesearch=?b min_t=?f max_t=?f dt=?f inside_outside_test=?b resample=?k resample_samples=?k feature_detection=?str'
  ' output_sensitive=?b remesh_iterations=?k batch_size=?k fix_boundary=?b clamp=?f pseudosdf_interior=?b',
  'p(?,3) i(?,3)', '3d', scale=False)
S('reach_for_the_spheres', 'U=p(q,3) sdf=fn V=p(n,3) F=i(m,3) S=?v(q) return_U==True verbose=b', 'p(?,3) i(?,3) p(?,3)', 'samples',
  scale=False)
D('reach_for_the_spheres_iteration', 'V=p(n,3) F=i(m,3) U=p(q,3) S=v(q) h=f^1 sdf=fn max_iter=?k tol=?f verbose=b batch_size=?k resample=?k'
  ' linesearch=?b output_sensitive=?b fix_boundary=?b clamp=?f pseudosdf_interior=?b',
  'state = gpytoolbox.ReachForTheSpheresState(V=V, F=F, U=U, S=S, h=h, sdf=sdf)\n'
  'conv = gpytoolbox.reach_for_the_spheres_iteration(state, max_iter=max_iter, tol=tol, verbose=verbose, batch_size=batch_size,'
  ' resample=resample, linesearch=linesearch, output_sensitive=output_sensitive, fix_boundary=fix_boundary, clamp=clamp,'
  ' pseudosdf_interior=pseudosdf_interior)\nreturn conv, state.V, state.F, 1.0*state.U, 1.0*state.S')

# ------------------------------------------------------------------ precomputed native trees
D('squared_distance_precompute', 'V=p(n,3) F=?i(m,3) P=p(q,3)',
  'pre = gpytoolbox.squared_distance_precompute(V, F)\nd, i, c = pre.squared_distance(P)\nreturn d, i, c, pre.V, pre.F, pre.dim')
D('fast_winding_number_precompute', 'V=p(n,3) F=i(m,3) order=k Q=p(q,3) accuracy_scale=f',
  'pre = gpytoolbox.fast_winding_number_precompute(V, F, order)\nw = pre.winding_number(Q, accuracy_scale)\n'
  'return w, pre.V, pre.F, pre.order')
D('ray_mesh_intersect_precompute', 'V=p(n,3) F=i(m,3) origins=p(q,3) directions=v(q,3)',
  'pre = gpytoolbox.ray_mesh_intersect_precompute(V, F)\nt, i, l = pre.intersect(origins, directions)\nreturn t, i, l, pre.V, pre.F')

# ------------------------------------------------------------------ files
S('read_mesh', 'file=str fmt=e{obj|stl|ply|=None} return_UV=b return_N=b return_C=b reader=e{=None|C++|Python} merge_stl=b',
  'a(?,3) i(?,3)')
S('read_mesh', 'file=str fmt==obj return_UV==True return_N==True reader==Python', 'a(?,?) i(?,3) x(?,?) i(?,3) x(?,?) i(?,3)', 'objpy')
S('read_mesh', 'file=str fmt==obj return_UV==True return_N==True reader==C++', 'a(?,?) i(?,3) x(?,?) i(?,3) x(?,?) i(?,3)', 'objcpp')
S('read_mesh', 'file=str fmt==ply return_N==True return_C==True', 'a(?,?) i(?,3) x(?,?) o o', 'ply')
S('read_mesh', 'file=str fmt==stl', 'a(?,?) i(?,3)', 'stl')
S('write_mesh', 'file=str V=p(n,3) F=i(m,3) UV=?x(r,2) Ft=?i(m,3) N=?x(s,3) Fn=?i(m,3) C=?i(n,4) binary=b fmt=e{obj|stl|ply|=None}'
  ' writer=e{=None|C++|Python}', None)
S('read_dmat', 'file_path=str', 'a(?,?)')
S('png2poly', 'filename=str', 'L[a(?,2)]')
