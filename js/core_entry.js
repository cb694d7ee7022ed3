import * as math from "@attitude/core/math";
import * as functions from "@attitude/core/functions";
import * as util from "@attitude/core/util";
import * as hyperbola from "@attitude/core/hyperbola";
import * as reconstruct from "@attitude/core/reconstruct";
import * as stereonet from "@attitude/core/stereonet/index";
import * as d3 from "d3";
export { math, functions, util, hyperbola, reconstruct, stereonet, d3 };
