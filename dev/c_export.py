"""P27, P28, P29: export."""
IN = 'format/phys/inertia_context.py'
SG = 'format/phys/solid_geometry_context.py'
KI = 'format/phys/kinematics/kinematic_semantic_context.py'
SD = 'format/mapping/cognilang_sdf_icon.py'
SF = 'format/semantics/cognitive_entity_semantic_factory.py'
P = ['P27']
Q = ['P28']
R = ['P29']
CY = """    r = geom['values'][0]
    l = geom['values'][1]
    ixy = 1.0/12.0*mass*(3*r*r+ l*l)
    izz = 0.5*mass*r*r
    return [ixy, ixy, izz, 0.0, 0.0, 0.0]
"""
ELL = "    return [1.0/5.0*mass*(b*b + c*c), 1.0/5.0*mass*(a*a + c*c), 1.0/5.0*mass*(a*a + b*b), 0.0, 0.0, 0.0]\n"
SPH = "        ixyz = 2.0/5.0*mass*r*r\n"
SEQ = IN_ALL = """            # Add inertia matrix elements
            el_ixx = etree.Element("ixx")
            el_ixx.text = str(inertia_values[0])
            el_iyy = etree.Element("iyy")
            el_iyy.text = str(inertia_values[1])
            el_izz = etree.Element("izz")
            el_izz.text = str(inertia_values[2])
            el_ixy = etree.Element("ixy")
            el_ixy.text = str(inertia_values[3])
            el_ixz = etree.Element("ixz")
            el_ixz.text = str(inertia_values[4])
            el_iyz = etree.Element("iyz")
            el_iyz.text = str(inertia_values[5])
            # Add remaining elements
            el_inertia = etree.Element("inertia")
            el_inertia.append(el_ixx)
            el_inertia.append(el_iyy)
            el_inertia.append(el_izz)
            el_inertia.append(el_ixy)
            el_inertia.append(el_ixz)
            el_inertia.append(el_iyz)
            el_inertial.append(el_inertia)
"""
GEO = """                    match __g:
                        case CylinderGeometry():
                            inertia_values = calc_cylinder_inertia(m, __g)
                        case EllipsoidGeometry():
                            inertia_values = calc_ellipsoid_inertia(m, __g)
"""
CASES = [
    ('unpack', 'same', P, [(IN, CY, """    r, l = geom['values']
    across = mass * (3 * r**2 + l**2) / 12
    along = mass * r**2 / 2
    return [across, across, along] + 3 * [0.0]
""")]),
    ('loop over tags', 'same', P, [(IN, SEQ, """            el_inertia = etree.SubElement(el_inertial, "inertia")
            for tag, value in zip(("ixx", "iyy", "izz", "ixy", "ixz", "iyz"), inertia_values):
                etree.SubElement(el_inertia, tag).text = str(value)
""")]),
    ('tag dict', 'same', P, [(IN, SEQ, """            el_inertia = etree.Element("inertia")
            tags = ["ixx", "iyy", "izz", "ixy", "ixz", "iyz"]
            for i, tag in enumerate(tags):
                e = etree.Element(tag)
                e.text = f"{inertia_values[i]}"
                el_inertia.append(e)
            el_inertial.append(el_inertia)
""")]),
    ('if chain', 'same', P, [(IN, GEO, """                    if isinstance(__g, CylinderGeometry):
                        inertia_values = calc_cylinder_inertia(m, __g)
                    elif isinstance(__g, EllipsoidGeometry):
                        inertia_values = calc_ellipsoid_inertia(m, __g)
""")]),
    ('table of functions', 'same', P, [(IN, GEO, """                    for kind, f in ((CylinderGeometry, calc_cylinder_inertia), (EllipsoidGeometry, calc_ellipsoid_inertia)):
                        if isinstance(__g, kind):
                            inertia_values = f(m, __g)
""")]),
    ('dict by type', 'same', P, [(IN, GEO, """                    f = {CylinderGeometry: calc_cylinder_inertia, EllipsoidGeometry: calc_ellipsoid_inertia}.get(type(__g))
                    if f is not None:
                        inertia_values = f(m, __g)
""")]),
    ('ellipsoid squares', 'same', P, [(IN, ELL, """    a2, b2, c2 = a**2, b**2, c**2
    k = mass/5
    diagonal = [k*(b2 + c2), k*(c2 + a2), k*(a2 + b2)]
    return [*diagonal, 0.0, 0.0, 0.0]
""")]),
    ('ellipsoid list comprehension', 'same', P, [(IN, ELL, """    sq = [x*x for x in (a, b, c)]
    total = sum(sq)
    return [mass*(total - x)/5.0 for x in sq] + [0.0]*3
""")]),
    ('sphere first', 'same', P, [(IN, SPH, "        ixyz = 0.4*mass*(r*r)\n")]),
    ('shape helper', 'same', P, [(SG, """            el_geom = etree.Element("cylinder")
            el_radius = etree.Element("radius")
            el_radius.text = str(e["values"][0])
            el_length = etree.Element("length")
            el_length.text = str(e["values"][1])
            el_geom.append(el_radius)
            el_geom.append(el_length)
""", """            el_geom = etree.Element("cylinder")
            radius, length = e["values"]
            _number(el_geom, "radius", radius)
            _number(el_geom, "length", length)
"""), (SG, "def extract_geometry_element", """def _number(el, tag, value):
    x = etree.SubElement(el, tag)
    x.text = str(value)


def extract_geometry_element""")]),
    ('radii by map', 'same', P, [(SG, "' '.join([str(x) for x in  e[\"values\"]])", "' '.join(map(str, e[\"values\"]))")]),
    ('swapped cylinder', 'bug', P, [(IN, "geom['values'][0]\n    l = geom['values'][1]", "geom['values'][1]\n    l = geom['values'][0]")]),
    ('diameter', 'bug', P, [(IN, "3*r*r+ l*l", "3*r*r/4 + l*l")]),
    ('thirds', 'bug', P, [(IN, "1.0/12.0*mass", "1.0/3.0*mass")]),
    ('hollow sphere', 'bug', P, [(IN, "2.0/5.0*mass*r*r", "2.0/3.0*mass*r*r")]),
    ('integer division', 'bug', P, [(IN, "1.0/12.0*mass", "1//12*mass")]),
    ('rounded', 'bug', P, [(IN, "el_izz.text = str(inertia_values[2])", "el_izz.text = f\"{inertia_values[2]:.3f}\"")]),
    ('round', 'bug', P, [(IN, "izz = 0.5*mass*r*r", "izz = round(0.5*mass*r*r, 6)")]),
    ('axis swapped', 'bug', P, [(IN, "return [ixy, ixy, izz, 0", "return [izz, ixy, ixy, 0")]),
    ('ellipsoid order', 'bug', P, [(IN, "1.0/5.0*mass*(a*a + c*c), 1.0/5.0*mass*(a*a + b*b)", "1.0/5.0*mass*(a*a + b*b), 1.0/5.0*mass*(a*a + c*c)")]),
    ('text order', 'bug', P, [(IN, "el_iyy.text = str(inertia_values[1])", "el_iyy.text = str(inertia_values[2])"), (IN, "el_izz.text = str(inertia_values[2])", "el_izz.text = str(inertia_values[1])")]),
    ('off diagonal', 'bug', P, [(IN, "return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]", "return [ixyz, ixyz, ixyz, 0.0, 0.0, 1.0]")]),
    ('first geometry lost for collisions', 'bug', P, [(IN, "        break\n        if" if False else "            __geom = list(_geom_node.get_subelements(lambda x: isinstance(x, GeometryNode)))\n            break\n", "            if len(list(_el.get_subelements(lambda x: isinstance(x, VisualMaterial)))) > 0:\n                __geom = list(_geom_node.get_subelements(lambda x: isinstance(x, GeometryNode)))\n            break\n"),
        (IN, "import InertiaElement,", "import VisualMaterial, InertiaElement,")]),
    ('mass unit', 'bug', P, [(IN, 'm = iner["mass"]', 'm = iner["mass"] * 1000')]),
    ('shape swapped', 'bug', P, [(SG, 'el_radius.text = str(e["values"][0])\n            el_length.text' if False else 'el_length.text = str(e["values"][1])', 'el_length.text = str(e["values"][0] * 2)')]),
    ('radii reversed', 'bug', P, [(SG, "' '.join([str(x) for x in  e[\"values\"]])", "' '.join([str(x) for x in e[\"values\"][::-1]])")]),
    ('sorted radii', 'bug', P, [(SG, "' '.join([str(x) for x in  e[\"values\"]])", "' '.join([str(x) for x in sorted(e[\"values\"])])")]),
    ('inertia missing for ellipsoid', 'bug', P, [(IN, "                        case EllipsoidGeometry():\n                            inertia_values = calc_ellipsoid_inertia(m, __g)\n", "")]),
    ('sphere by three', 'bug', P, [(SG, 'if len(e["values"]) == 1:\n                el_geom = etree.Element("sphere")', 'if len(set(e["values"])) == 1:\n                el_geom = etree.Element("sphere")')]),
    ('factory reverses', 'bug', P, [(SF, 'el.add_named_attribute("values", values)', 'el.add_named_attribute("values", sorted(values))')]),

    # ---- P28
    ('np deg2rad', 'same', Q, [(KI, "            rot = [np.pi/180.0*x for x in rot]", "            rot = [np.deg2rad(x) for x in rot]")]),
    ('whole array', 'same', Q, [(KI, "            rot = [np.pi/180.0*x for x in rot]", "            rot = np.deg2rad(rot)")]),
    ('math radians', 'same', Q, [(KI, "            rot = [np.pi/180.0*x for x in rot]", "            rot = list(map(math.radians, rot))"), (KI, "import numpy as np\n", "import math\nimport numpy as np\n")]),
    ('pose by join', 'same', Q, [(KI, """    el_pose.text = f"{x['translation'][0]} {x['translation'][1]} {x['translation'][2]} {rot[0]} {rot[1]} {rot[2]}\"""", """    el_pose.text = ' '.join([str(v) for v in x['translation']] + [str(v) for v in rot])""")]),
    ('factor', 'same', Q, [(KI, """    rot = [x for x in x['rotation']]
    match x['rotation_type']:
        case 'deg':
            rot = [np.pi/180.0*x for x in rot]
""", """    factor = np.pi/180.0 if x['rotation_type'] == 'deg' else 1.0
    rot = [factor*v for v in x['rotation']]
""")]),
    ('type table', 'same', Q, [(KI, """    match joint_type:
        case "fix":
            return "fixed"
        case "rev":
            return "revolute"
        case "tr":
            return "prismatic"
    return "fixed"
""", """    return {"fix": "fixed", "rev": "revolute", "tr": "prismatic"}.get(joint_type, "fixed")
""")]),
    ('axis or', 'same', Q, [(KI, """    __axis = [0.0, 0.0, 1.0]
    if jrel['axis'] is not None:
        __axis = jrel['axis']
""", """    __axis = jrel['axis'] if jrel['axis'] is not None else [0.0, 0.0, 1.0]
""")]),
    ('axis joined', 'same', Q, [(KI, 'el_axis_xyz.text = f"{__axis[0]} {__axis[1]} {__axis[2]}"', 'el_axis_xyz.text = " ".join(str(v) for v in __axis)')]),
    ('joint of relation', 'same', Q, [(KI, "    jrel = [x for x in j1.get_subelements(lambda x: isinstance(x, KinematicJoint))][0]\n    joint_el", "    jrel = next(j1.get_subelements(lambda x: isinstance(x, KinematicJoint)))\n    joint_el")]),
    ('parent and child swapped', 'bug', Q, [(KI, "joint_el.append(el_joint_parent)\n" if False else "el_joint_parent.text = join_w_prefix_separator([j0.endpoint.id_name]", "el_joint_parent.text = join_w_prefix_separator([j1.endpoint.id_name]")]),
    ('child is parent', 'bug', Q, [(KI, "default_joint_name(j1, prefix), j1.endpoint.id_name, prefix)", "default_joint_name(j1, prefix), j0.endpoint.id_name, prefix)")]),
    ('joint of other relation', 'bug', Q, [(KI, "    jrel = [x for x in j1.get_subelements(lambda x: isinstance(x, KinematicJoint))][0]\n    joint_el", "    jrel = [x for x in j0.get_subelements(lambda x: isinstance(x, KinematicJoint))][0]\n    joint_el")]),
    ('prismatic lost', 'bug', Q, [(KI, '        case "tr":\n            return "prismatic"\n', '        case "pris":\n            return "prismatic"\n')]),
    ('continuous', 'bug', Q, [(KI, 'return "revolute"', 'return "continuous"')]),
    ('default axis x', 'bug', Q, [(KI, "__axis = [0.0, 0.0, 1.0]", "__axis = [1.0, 0.0, 0.0]")]),
    ('axis order', 'bug', Q, [(KI, '{__axis[0]} {__axis[1]} {__axis[2]}', '{__axis[2]} {__axis[1]} {__axis[0]}')]),
    ('axis only if truthy first', 'bug', Q, [(KI, "__axis = jrel['axis']", "__axis = [abs(v) for v in jrel['axis']]")]),
    ('degrees twice', 'bug', Q, [(KI, "            rot = [np.pi/180.0*x for x in rot]", "            rot = [np.deg2rad(np.pi/180.0*x) for x in rot]")]),
    ('radians converted', 'bug', Q, [(KI, "        case 'deg':\n", "        case _:\n")]),
    ('degrees as is', 'bug', Q, [(KI, "        case 'deg':\n", "        case 'degree':\n")]),
    ('inverse', 'bug', Q, [(KI, "np.pi/180.0*x", "180.0/np.pi*x")]),
    ('rotation first', 'bug', Q, [(KI, "{x['translation'][0]} {x['translation'][1]} {x['translation'][2]} {rot[0]} {rot[1]} {rot[2]}", "{rot[0]} {rot[1]} {rot[2]} {x['translation'][0]} {x['translation'][1]} {x['translation'][2]}")]),
    ('in place conversion', 'bug', Q, [(KI, "    rot = [x for x in x['rotation']]\n", "    rot = x['rotation']\n"), (KI, "            rot = [np.pi/180.0*x for x in rot]", "            for i in range(3):\n                rot[i] = np.pi/180.0*rot[i]"),
        (SD, "                joint_el = joint_base_element(j0, j1, prefix)\n", "                joint_base_element(j0, j1)\n                joint_el = joint_base_element(j0, j1, prefix)\n")]),
    ('pairs swapped in icon', 'bug', Q, [(SD, "joint_base_element(j0, j1, prefix)", "joint_base_element(j1, j0, prefix)")]),
    ('two digits', 'bug', Q, [(KI, "{rot[0]} {rot[1]} {rot[2]}", "{rot[0]:.4f} {rot[1]:.4f} {rot[2]:.4f}")]),
    # ---- P29
    ('geometry comprehension', 'same', R, [(SG, """    for __v in __sem_visual:
        # Yield visual element
        yield from encode_visual_elements(__v, __sem_material[__v], prefix)
    # Collision geometry setup
    for __c in __sem_collision:
        yield from encode_collision_elements(__c, prefix)
""", """    pairs = [(v, __sem_material[v]) for v in __sem_visual]
    for v, material in pairs:
        for el in encode_visual_elements(v, material, prefix):
            yield el
    yield from (el for c in __sem_collision for el in encode_collision_elements(c, prefix))
""")]),
    ('no dict', 'same', R, [(SG, "            __sem_visual.extend(geometries)\n            __sem_material.update({i: mat[0] for i in geometries})\n", "            __sem_visual.extend((g, mat[0]) for g in geometries)\n"),
        (SG, "    for __v in __sem_visual:\n        # Yield visual element\n        yield from encode_visual_elements(__v, __sem_material[__v], prefix)\n", "    for __v, __m in __sem_visual:\n        yield from encode_visual_elements(__v, __m, prefix)\n")]),
    ('geometry helper', 'same', R, [(SG, """    for e in element.get_subelements(lambda x: isinstance(x, GeometryNode)):
        el_top_geom = etree.Element("geometry")
        el_geom = encode_typegeometry_element(e)
        if el_geom is not None:
            el_top_geom.append(el_geom)
        yield el_top_geom
""", """    for e in element.get_subelements(lambda x: isinstance(x, GeometryNode)):
        yield _wrap(e)
"""), (SG, """                    el_top_geom = etree.Element("geometry")
                    el_geom = encode_typegeometry_element(__g)
                    if el_geom is not None:
                        el_top_geom.append(el_geom)
                    yield el_top_geom
""", "                    yield _wrap(__g)\n"), (SG, "def extract_geometry_element", '''def _wrap(geometry):
    top = etree.Element("geometry")
    inner = encode_typegeometry_element(geometry)
    if inner is not None:
        top.append(inner)
    return top


def extract_geometry_element''')]),
    ('collisions first', 'same', R, [(SG, """    # Visual geometry setup
    for __v in __sem_visual:
        # Yield visual element
        yield from encode_visual_elements(__v, __sem_material[__v], prefix)
    # Collision geometry setup
    for __c in __sem_collision:
        yield from encode_collision_elements(__c, prefix)
""", """    for __c in __sem_collision:
        yield from encode_collision_elements(__c, prefix)
    for __v in __sem_visual:
        yield from encode_visual_elements(__v, __sem_material[__v], prefix)
""")]),
    ('last material wins', 'bug', R, [(SG, "            __sem_material.update({i: mat[0] for i in geometries})\n", "            __sem_material = mat[0]\n"), (SG, "__sem_material[__v]", "__sem_material")]),
    ('material by name', 'bug', R, [(SG, "__sem_material.update({i: mat[0] for i in geometries})", "__sem_material.update({i.id_name.split('_')[0]: mat[0] for i in geometries})"), (SG, "__sem_material[__v]", "__sem_material[__v.id_name.split('_')[0]]")]),
    ('one geometry per kind', 'bug', R, [(SG, "__sem_collision.extend(geometries)", "__sem_collision = geometries")]),
    ('visual also collision', 'bug', R, [(SG, "        else:\n            __sem_collision.extend(geometries)", "        __sem_collision.extend(geometries)")]),
    ('references dropped', 'bug', R, [(SG, "for x in __ref_.get_outgoing_relations():", "for x in __ref_.get_incoming_relations():")]),
    ('reference of first holder only', 'bug', R, [(SG, "    __ref_: HypergraphEdge = e.endpoint.parent\n" if False else "        for x in __ref_.get_outgoing_relations():\n", "        if list(__ref_.get_incoming_relations())[0].endpoint is not element:\n            continue\n        for x in __ref_.get_outgoing_relations():\n")]),
    ('append none', 'bug', R, [(SG, "        el_geom = encode_typegeometry_element(e)\n        if el_geom is not None:\n            el_top_geom.append(el_geom)\n", "        el_geom = encode_typegeometry_element(e)\n        el_top_geom.append(el_geom)\n")]),
    ('box of one fails', 'bug', R, [(SG, "                    case 1:\n                        v = e[\"values\"][0]\n                        el_size.text = f\"{v} {v} {v}\"\n", "")]),
    ('cube flat', 'bug', R, [(SG, 'f"{v} {v} {v}"', 'f"{v} {v} 1.0"')]),
    ('ellipsoid lost', 'bug', R, [(SG, 'case EllipsoidGeometry():\n            if len(e["values"]) == 1:', 'case EllipsoidGeometry() if len(e["values"]) == 1:\n            if len(e["values"]) == 1:')]),
    ('frame fails outside graph', 'bug', R, [(KI, "elif parent_kin_graph is not None and parent_kin_graph.parent is not None:", "elif parent_kin_graph.parent is not None:")]),
    ('joint assumed', 'bug', R, [(KI, "sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)", "sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))")]),
    ('graph assumed', 'bug', R, [(KI, "        if __current_node.parent is not None:\n            __current_node = __current_node.parent\n        else:\n            break\n", "        __current_node = __current_node.parent\n")]),
    ('stops at first visual', 'bug', R, [(SG, "        yield from encode_visual_elements(__v, __sem_material[__v], prefix)\n", "        yield from encode_visual_elements(__v, __sem_material[__v], prefix)\n        if encode_typegeometry_element(__v) is None and len(__sem_visual) > 2:\n            break\n")]),
]
