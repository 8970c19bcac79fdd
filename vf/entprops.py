"""The documented properties of the entity types, written from the documentation."""
from . import gen

# type -> [(property, variable, kind, default)]
ENTITY = {
    "AI_controller": [("node_wait_times", "nodes_wait_time", "array:int", None), ("nodes", "nodes", "array:vec2", None), ("puppet", "puppet_id", "uint", 0)],
    "ambience_trigger": [("sound_names", "sound_ambience_names", "array:string", None), ("sound_vols", "sound_ambience_vol", "array:float", None),
                         ("speed", "ambience_speed", "float", 5.0), ("width", "width", "int", 500)],
    "base_trigger": [("width", "width", "int", 500)],
    "camera_node": [("control_widths", "control_widths", "array:vec2", None), ("node_type", "node_type", "int", 1), ("nodes", "c_node_ids", "array:uint", None),
                    ("test_widths", "test_widths", "array:int", None), ("width", "width", "int", 520), ("zoom", "zoom_h", "int", 1080)],
    "check_point": [("trigger_areas", "trigger_area", "array:vec2", None)],
    "custom_score_book": [("level_list", "level_list_id", "int", 0)],
    "enemy_key": [("door", "door", "uint", 0), ("lastX", "lastKnowX", "float", 0.0), ("lastY", "lastKnowY", "float", 0.0)],
    "enemy_trash_tire": [("max_fall_speed", "max_fall_speed", "float", 800.0)],
    "entity_emitter": [("draw_depth_sub", "draw_depth_sub", "uint", 0), ("e_rotation", "e_rotation", "int", 0), ("emitter_id", "emitter_id", "uint", 0),
                       ("height", "height", "int", 480), ("r_area", "r_area", "bool", False), ("r_rotation", "r_rotation", "bool", False), ("width", "width", "int", 480)],
    "fog_trigger": [("colours", "fog_colour", "array:uint", None), ("gradient", "gradient", "array:uint", None), ("gradient_middle", "gradient_middle", "float", 0.0),
                    ("has_sub_layers", "has_sub_layers", "bool", False), ("pers", "fog_per", "array:float", None), ("speed", "fog_speed", "float", 5.0),
                    ("star_bottom", "star_bottom", "float", 0.0), ("star_middle", "star_middle", "float", 0.4), ("star_top", "star_top", "float", 1.0), ("width", "width", "int", 500)],
    "giga_gate": [("keys_needed", "key_needed", "int", 1)],
    "kill_box": [("height", "height", "int", 0), ("width", "width", "int", 0)],
    "level_door": [("door_set", "door_set", "int", 0), ("file_name", "file_name", "string", b""), ("width", "width", "int", 500)],
    "level_end": [("entities", "ent_list", "array:uint", None), ("finished", "finished", "bool", False)],
    "level_end_prox": [("finished", "finished", "bool", False), ("trigger_areas", "trigger_area", "array:vec2", None)],
    "music_trigger": [("sound_names", "sound_music_names", "array:string", None), ("sound_vols", "sound_music_vol", "array:float", None),
                      ("speed", "music_speed", "float", 5.0), ("width", "width", "int", 500)],
    "score_book": [("book_type", "book_type", "string", b"")],
    "special_trigger": [("width", "width", "int", 500)],
    "text_trigger": [("hide", "hide", "bool", False), ("text", "text_string", "string", b"")],
    "z_string_list": [("data", "list", "array:string", None), ("width", "width", "int", 500)],
}
HITTABLE = [t for t in gen.TYPES if t.startswith(("enemy_", "dust_"))] + ["hittable_apple", "leaf_sprite", "trash_king", "slime_boss"]
for _t in HITTABLE:
    ENTITY.setdefault(_t, [])
    ENTITY[_t] = ENTITY[_t] + [("scale", "dm_scale", "float", 1.0)]


def value(rng, kind, key):
    """A plausible (kind, value) of that kind."""
    if kind.startswith("array:"):
        k = kind[6:]
        return ("array", (k, [value(rng, k, key) for _ in range(rng.choice([0, 1, 2, 5]))]))
    if kind == "bool":
        return (kind, rng.random() < 0.5)
    if kind == "int":
        return (kind, rng.choice([1, 2, 3, 4, 5, 6]) if key == "node_type" else rng.choice([-1, 0, 1, 2, 3, 60, gen.i32(rng)]))
    if kind == "uint":
        return (kind, rng.choice([0, 1, 2, 20, gen.u32(rng)]))
    if kind == "float":
        return (kind, rng.choice([0.0, 1.0, -0.5, gen.grid_float(rng)]))
    if kind == "string":
        return (kind, rng.choice([b"", b"x", b"downhill", gen.bstr(rng)]))
    return (kind, (gen.grid_float(rng), gen.grid_float(rng)))


def documented(rng, type_, skip=()):
    """Some of the documented variables of a type, but not those in skip."""
    if rng.random() < 0.3:
        return []
    return [(key, value(rng, kind, key)) for _, key, kind, _ in ENTITY.get(type_, ()) if key not in skip and rng.random() < 0.6]
