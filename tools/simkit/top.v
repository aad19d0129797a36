`timescale 1ns / 1ns
module top #(parameter DW=32, AW=32, IDW=8, SW=DW/8, UW=4)
(
    input wire clk, input wire rst,
    inout wire [IDW-1:0] axi_awid, inout wire [AW-1:0] axi_awaddr, inout wire [7:0] axi_awlen, inout wire [2:0] axi_awsize,
    inout wire [1:0] axi_awburst, inout wire axi_awlock, inout wire [3:0] axi_awcache, inout wire [2:0] axi_awprot,
    inout wire [3:0] axi_awqos, inout wire [3:0] axi_awregion, inout wire [UW-1:0] axi_awuser, inout wire axi_awvalid, inout wire axi_awready,
    inout wire [DW-1:0] axi_wdata, inout wire [SW-1:0] axi_wstrb, inout wire axi_wlast, inout wire [UW-1:0] axi_wuser, inout wire axi_wvalid, inout wire axi_wready,
    inout wire [IDW-1:0] axi_bid, inout wire [1:0] axi_bresp, inout wire [UW-1:0] axi_buser, inout wire axi_bvalid, inout wire axi_bready,
    inout wire [IDW-1:0] axi_arid, inout wire [AW-1:0] axi_araddr, inout wire [7:0] axi_arlen, inout wire [2:0] axi_arsize,
    inout wire [1:0] axi_arburst, inout wire axi_arlock, inout wire [3:0] axi_arcache, inout wire [2:0] axi_arprot,
    inout wire [3:0] axi_arqos, inout wire [3:0] axi_arregion, inout wire [UW-1:0] axi_aruser, inout wire axi_arvalid, inout wire axi_arready,
    inout wire [IDW-1:0] axi_rid, inout wire [DW-1:0] axi_rdata, inout wire [1:0] axi_rresp, inout wire axi_rlast, inout wire [UW-1:0] axi_ruser, inout wire axi_rvalid, inout wire axi_rready,
    // AXI without wstrb
    inout wire [IDW-1:0] nw_awid, inout wire [AW-1:0] nw_awaddr, inout wire [7:0] nw_awlen, inout wire [2:0] nw_awsize,
    inout wire [1:0] nw_awburst, inout wire nw_awlock, inout wire [3:0] nw_awcache, inout wire [2:0] nw_awprot,
    inout wire [3:0] nw_awqos, inout wire [3:0] nw_awregion, inout wire [UW-1:0] nw_awuser, inout wire nw_awvalid, inout wire nw_awready,
    inout wire [DW-1:0] nw_wdata, inout wire nw_wlast, inout wire [UW-1:0] nw_wuser, inout wire nw_wvalid, inout wire nw_wready,
    inout wire [IDW-1:0] nw_bid, inout wire [1:0] nw_bresp, inout wire [UW-1:0] nw_buser, inout wire nw_bvalid, inout wire nw_bready,
    inout wire [IDW-1:0] nw_arid, inout wire [AW-1:0] nw_araddr, inout wire [7:0] nw_arlen, inout wire [2:0] nw_arsize,
    inout wire [1:0] nw_arburst, inout wire nw_arlock, inout wire [3:0] nw_arcache, inout wire [2:0] nw_arprot,
    inout wire [3:0] nw_arqos, inout wire [3:0] nw_arregion, inout wire [UW-1:0] nw_aruser, inout wire nw_arvalid, inout wire nw_arready,
    inout wire [IDW-1:0] nw_rid, inout wire [DW-1:0] nw_rdata, inout wire [1:0] nw_rresp, inout wire nw_rlast, inout wire [UW-1:0] nw_ruser, inout wire nw_rvalid, inout wire nw_rready,
    // AXI lite
    inout wire [AW-1:0] axil_awaddr, inout wire [2:0] axil_awprot, inout wire axil_awvalid, inout wire axil_awready,
    inout wire [DW-1:0] axil_wdata, inout wire [SW-1:0] axil_wstrb, inout wire axil_wvalid, inout wire axil_wready,
    inout wire [1:0] axil_bresp, inout wire axil_bvalid, inout wire axil_bready,
    inout wire [AW-1:0] axil_araddr, inout wire [2:0] axil_arprot, inout wire axil_arvalid, inout wire axil_arready,
    inout wire [DW-1:0] axil_rdata, inout wire [1:0] axil_rresp, inout wire axil_rvalid, inout wire axil_rready,
    // AXI stream
    inout wire [DW-1:0] axis_tdata, inout wire [SW-1:0] axis_tkeep, inout wire axis_tvalid, inout wire axis_tready, inout wire axis_tlast,
    inout wire [7:0] axis_tid, inout wire [7:0] axis_tdest, inout wire [UW-1:0] axis_tuser,
    // AXI stream without tkeep
    inout wire [DW-1:0] nk_tdata, inout wire nk_tvalid, inout wire nk_tready, inout wire nk_tlast,
    // bare stream: tdata only
    inout wire [DW-1:0] bare_tdata,
    // APB
    inout wire [AW-1:0] apb_paddr, inout wire [2:0] apb_pprot, inout wire apb_psel, inout wire apb_penable, inout wire apb_pwrite,
    inout wire [DW-1:0] apb_pwdata, inout wire [SW-1:0] apb_pstrb, inout wire apb_pready, inout wire [DW-1:0] apb_prdata, inout wire apb_pslverr
);
endmodule
