"""What each suite runs, and which properties each suite speaks about."""

# name: driver, trace module, quick (shards, size per shard), thorough (shards, size), extra driver arguments
SUITES = {
    "engine":   dict(driver="d_engine.py", module="TrEngine", quick=(8, 70), thorough=(32, 400)),
    "engine-ma": dict(driver="d_engine.py", module="TrEngine", quick=(8, 60), thorough=(32, 400), dump=dict(module="MCEngineDump", env={"VERIF_FAMILY": "a"})),
    "engine-mb": dict(driver="d_engine.py", module="TrEngine", quick=(8, 60), thorough=(32, 650), dump=dict(module="MCEngineDump", env={"VERIF_FAMILY": "b"})),
    "bundle":   dict(driver="d_bundle.py", module="TrBundle", quick=(8, 120), thorough=(32, 1500)),
    "frames":   dict(driver="d_frames.py", module="TrFrames", quick=(8, 60), thorough=(32, 500)),
    "flat":     dict(driver="d_geom.py", module="TrGeom", quick=(8, 120), thorough=(32, 1500), extra=["flat"]),
    "curved":   dict(driver="d_geom.py", module="TrGeom", quick=(8, 160), thorough=(32, 1500), extra=["curved"]),
    "geom":     dict(driver="d_geom.py", module="TrGeom", quick=(8, 120), thorough=(32, 1500), extra=["all"]),
    "scene":    dict(driver="d_scene.py", module="TrScene", quick=(8, 150), thorough=(32, 2000), extra=["all"]),
    "m-sided":  dict(driver="d_models.py", module="TrScene", quick=(8, 120), thorough=(32, 1200), extra=["sided"]),
    "m-lens":   dict(driver="d_models.py", module="TrScene", quick=(8, 120), thorough=(32, 1200), extra=["lens"]),
    "m-tris":   dict(driver="d_models.py", module="TrScene", quick=(8, 120), thorough=(32, 1200), extra=["tris"]),
    "m-dish":   dict(driver="d_models.py", module="TrScene", quick=(8, 120), thorough=(32, 1200), extra=["dish"]),
    "s-books":  dict(driver="d_scene.py", module="TrScene", quick=(8, 120), thorough=(32, 1200), extra=["books"]),
    "spatial":  dict(driver="d_spatial.py", module="TrSpatial", quick=(8, 250), thorough=(32, 4000)),
    "field":    dict(driver="d_field.py", module="TrField", quick=(8, 250), thorough=(32, 3000)),
    "src":      dict(driver="d_source.py", module="TrSource", quick=(8, 150), thorough=(32, 1500), extra=["small"]),
    "src-big":  dict(driver="d_source.py", module="TrSource", quick=(8, 3), thorough=(32, 16), extra=["big"]),
    "diffuse-big": dict(driver="d_source.py", module="TrSource", quick=(8, 3), thorough=(32, 16), extra=["diffuse"]),
    "mesh":     dict(driver="d_mesh.py", module="TrMesh", quick=(8, 150), thorough=(32, 1500)),
    "shown":    dict(driver="d_display.py", module="TrDisplay", quick=(8, 160), thorough=(32, 1500), extra=["shown"]),
    "tree":     dict(driver="d_display.py", module="TrDisplay", quick=(8, 150), thorough=(32, 1500), extra=["tree"]),
    "bounds":   dict(driver="d_bounds.py", module="TrBounds", quick=(8, 300), thorough=(32, 3000)),
    "o-mirror": dict(driver="d_optics.py", module="TrOptics", quick=(8, 800), thorough=(32, 6000), extra=["mirror"]),
    "o-refr":   dict(driver="d_optics.py", module="TrOptics", quick=(8, 800), thorough=(32, 6000), extra=["refr"]),
    "o-energy": dict(driver="d_optics.py", module="TrOptics", quick=(8, 500), thorough=(32, 6000), extra=["energy"]),
    "o-recv":   dict(driver="d_optics.py", module="TrOptics", quick=(8, 500), thorough=(32, 6000), extra=["recv"]),
    "o-diffuse": dict(driver="d_optics.py", module="TrOptics", quick=(8, 800), thorough=(32, 6000), extra=["diffuse"]),
}

# Models checked by TLC on their own: module, cfg, quick env, thorough env, what it shows.
MODELS = {
    "engine-a": dict(module="MCEngine", cfg="MCEngine.cfg", env={"VERIF_FAMILY": "qa"}, tenv={"VERIF_FAMILY": "a"}),
    "engine-b": dict(module="MCEngine", cfg="MCEngine.cfg", env={"VERIF_FAMILY": "qb"}, tenv={"VERIF_FAMILY": "b"}),
    "bundle":   dict(module="MCBundle", cfg="MCBundle.cfg", tcfg="MCBundleT.cfg"),
    "frames":   dict(module="MCFrames", cfg="MCFrames.cfg", tcfg="MCFramesT.cfg"),
    "geom":     dict(module="MCGeom", cfg="MCGeom.cfg", tenv={"VERIF_FAMILY": "t"}),
    "scene":    dict(module="MCScene", cfg="MCScene.cfg", tenv={"VERIF_FAMILY": "t"}),
    "spatial":  dict(module="MCSpatial", cfg="MCSpatial.cfg", tenv={"VERIF_FAMILY": "t"}),
    "field":    dict(module="MCField", cfg="MCField.cfg", tenv={"VERIF_FAMILY": "t"}),
    "source":   dict(module="MCSource", cfg="MCSource.cfg"),
    "mesh":     dict(module="MCMesh", cfg="MCMesh.cfg"),
    "bounds":   dict(module="MCBounds", cfg="MCBounds.cfg", tenv={"VERIF_FAMILY": "t"}),
    "display":  dict(module="MCDisplay", cfg="MCDisplay.cfg", tcfg="MCDisplayT.cfg", tenv={"VERIF_FAMILY": "t"}),
    "optics":   dict(module="MCOptics", cfg="MCOptics.cfg", tenv={"VERIF_FAMILY": "t"}),
}

# property: suites that bind it to the code, models that check it on the specification
PROPS = {
    "C01": (["engine", "engine-ma", "scene"], ["engine-a", "scene"]),
    "C03": (["engine", "engine-ma", "scene"], ["engine-a"]),
    "C04": (["engine", "engine-ma", "scene"], ["engine-a"]),
    "C05": (["engine", "engine-mb"], ["engine-b"]),
    "C10": (["bundle"], ["bundle"]),
    "C08": (["frames"], ["frames"]),
    "C09": (["frames"], ["frames"]),
    "C11": (["flat"], ["geom"]),
    "C12": (["curved"], ["geom"]),
    "C13": (["geom"], ["geom"]),
    "C02": (["scene", "engine", "geom", "o-energy"], ["engine-a", "scene"]),
    "C06": (["scene", "engine"], ["engine-a"]),
    "C07": (["o-energy", "s-books"], ["optics"]),
    "C14": (["o-mirror"], ["optics"]),
    "C15": (["o-refr"], ["optics"]),
    "C16": (["o-recv", "s-books"], ["optics"]),
    "C17": (["o-diffuse", "diffuse-big"], ["optics", "source"]),
    "C18": (["src", "src-big"], ["source"]),
    "C20": (["field"], ["field"]),
    "C24": (["mesh"], ["mesh"]),
    "C25": (["bounds", "frames"], ["bounds", "frames"]),
    "C26": (["spatial"], ["spatial"]),
    "C19": (["m-sided"], ["scene"]),
    "C21": (["m-lens"], ["scene"]),
    "C22": (["m-tris"], ["scene"]),
    "C23": (["m-dish"], ["scene"]),
    "C27": (["shown"], ["display"]),
    "C28": (["tree"], ["display"]),
}
