"""What each property's check runs: models (TLC on the specification alone, some
generating behaviours to replay) and suites (driver recordings to validate)."""
TRUST = ["TLC and its Java primitives (java/Prims.java: big integers, SHA-1/256/512, HMAC, RIPEMD-160)",
         "the driver records arguments and results faithfully"]
SUITES = {
    "C01": dict(models=[dict(module="MC_VM", cfg="MC_VM.cfg", cfg_thorough="MC_VM_thorough.cfg", min_states=1000)], drive=[dict(suite="C01", spec="VMTrace", min_events=3000)], assumptions=TRUST),
    "C02": dict(models=[dict(module="MC_Verify", cfg="MC_Verify.cfg", cfg_thorough="MC_Verify_thorough.cfg", min_states=1000)], drive=[dict(suite="C02", spec="VMTrace", min_events=1000)], assumptions=TRUST),
    "C03": dict(models=[dict(module="MC_MultiSig", cfg="MC_MultiSig.cfg", cfg_thorough="MC_MultiSig_thorough.cfg", min_states=100)], drive=[dict(suite="C03", spec="VMTrace", min_events=1000)], assumptions=TRUST),
    "C04": dict(models=[dict(module="MC_Script", cfg="MC_Script.cfg", cfg_thorough="MC_Script_thorough.cfg", min_states=1000)], drive=[dict(suite="C04", spec="ScriptTrace", min_events=3000)], assumptions=TRUST),
    "C24": dict(models=[dict(module="MC_Codec", cfg="MC_Codec.cfg", cfg_thorough="MC_Codec_thorough.cfg", min_states=1000)], drive=[dict(suite="C24", spec="CodecTrace", min_events=5000)], assumptions=TRUST),
    "C09": dict(models=[dict(module="MC_Address", cfg="MC_Address.cfg", cfg_thorough="MC_Address_thorough.cfg", min_states=1000)], drive=[dict(suite="C09", spec="AddressTrace", min_events=3000)], assumptions=TRUST),
    "C21": dict(models=[dict(module="MC_Curve", cfg="MC_Curve.cfg", cfg_thorough="MC_Curve_thorough.cfg", min_states=1000), dict(module="MC_Keys", cfg="MC_Keys.cfg", cfg_thorough="MC_Keys_thorough.cfg", min_states=1000)], drive=[dict(suite="C21", spec="KeysTrace", min_events=1000)], assumptions=TRUST),
    "C12": dict(models=[dict(module="MC_Ecdsa", cfg="MC_Ecdsa.cfg", cfg_thorough="MC_Ecdsa_thorough.cfg", min_states=1000)], drive=[dict(suite="C12", spec="EcdsaTrace", min_events=1000)], assumptions=TRUST),
    "C13": dict(models=[dict(module="MC_Schnorr", cfg="MC_Schnorr.cfg", cfg_thorough="MC_Schnorr_thorough.cfg", min_states=1000)], drive=[dict(suite="C13", spec="SchnorrTrace", min_events=1000)], assumptions=TRUST),
    "C17": dict(models=[dict(module="MC_Merkle", cfg="MC_Merkle.cfg", cfg_thorough="MC_Merkle_thorough.cfg", min_states=1000)], drive=[dict(suite="C17", spec="MerkleTrace", min_events=1000)], assumptions=TRUST),
    "C16": dict(models=[dict(module="MC_Paillier", cfg="MC_Paillier.cfg", cfg_thorough="MC_Paillier_thorough.cfg", min_states=1000)], drive=[dict(suite="C16", spec="PaillierTrace", min_events=1000)], assumptions=TRUST),
    "C14": dict(models=[dict(module="MC_Mpc", cfg="MC_Mpc.cfg", cfg_thorough="MC_Mpc_thorough.cfg", min_states=1000)], drive=[dict(suite="C14", spec="MpcTrace", min_events=1000)], assumptions=TRUST),
    "C15": dict(models=[dict(module="MC_SMpc", cfg="MC_SMpc.cfg", cfg_thorough="MC_SMpc_thorough.cfg", min_states=1000)], drive=[dict(suite="C15", spec="SMpcTrace", min_events=1000)], assumptions=TRUST),
    "C10": dict(models=[dict(module="MC_Hd", cfg="MC_Hd.cfg", cfg_thorough="MC_Hd_thorough.cfg", min_states=1000)], drive=[dict(suite="C10", spec="HdTrace", min_events=1000)], assumptions=TRUST),
    "C11": dict(models=[dict(module="MC_Bip39", cfg="MC_Bip39.cfg", cfg_thorough="MC_Bip39_thorough.cfg", min_states=1000)], drive=[dict(suite="C11", spec="Bip39Trace", min_events=1000)], assumptions=TRUST),
    "C08": dict(models=[dict(module="MC_Builder", cfg="MC_Builder.cfg", cfg_thorough="MC_Builder_thorough.cfg", min_states=1000)], drive=[dict(suite="C08", spec="BuilderTrace", min_events=1000)], assumptions=TRUST),
    "C19": dict(models=[dict(module="MC_Msg", cfg="MC_Msg.cfg", cfg_thorough="MC_Msg_thorough.cfg", min_states=1000)], drive=[dict(suite="C19", spec="MsgTrace", min_events=1000)], assumptions=TRUST),
    "C18": dict(models=[dict(module="MC_Wire", cfg="MC_Wire.cfg", cfg_thorough="MC_Wire_thorough.cfg", min_states=1000), dict(module="MC_Stream", cfg="MC_Stream.cfg", cfg_thorough="MC_Stream_thorough.cfg", min_states=1000)], drive=[dict(suite="C18", spec="StreamTrace", min_events=1000)], assumptions=TRUST),
    "C23": dict(models=[dict(module="MC_Rpc", cfg="MC_Rpc.cfg", cfg_thorough="MC_Rpc_thorough.cfg", min_states=500)], drive=[dict(suite="C23", spec="RpcTrace", min_events=1000)], assumptions=TRUST),
    "C05": dict(models=[dict(module="MC_TxWire", cfg="MC_TxWire.cfg", cfg_thorough="MC_TxWire_thorough.cfg", min_states=1000)], drive=[dict(suite="C05", spec="TxTrace", min_events=1000)], assumptions=TRUST),
    "C06": dict(models=[dict(module="MC_TxHash", cfg="MC_TxHash.cfg", cfg_thorough="MC_TxHash_thorough.cfg", min_states=1000)], drive=[dict(suite="C06", spec="TxTrace", min_events=1000)], assumptions=TRUST),
    "C07": dict(models=[dict(module="MC_TxSign", cfg="MC_TxSign.cfg", cfg_thorough="MC_TxSign_thorough.cfg", min_states=1000)], drive=[dict(suite="C07", spec="TxTrace", min_events=1000)], assumptions=TRUST),
    "C20": dict(models=[dict(module="MC_Junk", cfg="MC_Junk.cfg", cfg_thorough="MC_Junk_thorough.cfg", min_states=1000)], drive=[dict(suite="C20", spec="JunkTrace", guard=True, vmem=8000000, min_events=1000)], assumptions=TRUST),
    "C22": dict(models=[dict(module="MC_Alias", cfg="MC_Alias.cfg", cfg_thorough="MC_Alias_thorough.cfg", min_states=1000)], drive=[dict(suite="C22", spec="AliasTrace", min_events=1000)], assumptions=TRUST),
    "C25": dict(models=[dict(module="MC_Inter", cfg="MC_Inter.cfg", min_states=1000), dict(module="MC_Conc", cfg="MC_Conc.cfg", cfg_thorough="MC_Conc_thorough.cfg", min_states=500)], drive=[dict(suite="C25", spec="ConcTrace", race=True, min_events=500)], assumptions=TRUST),
}
